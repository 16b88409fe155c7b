J = "boofcpp-jni/src/main/cpp/"
A = "boofcpp-jni/src/main/java/org/boofcpp/"
EDITS = []
for n, cls in (("NativeBlockMean", "ThresholdBlockMean"), ("NativeGlobalFixed", "GlobalFixedBinaryFilter"), ("NativeLocalMean", "LocalMeanBinaryFilter")):
    EDITS.append((J + n + ".cpp", '''    if( isInteger ) {
        delete (%s<U8> *) nativePtr;
    } else {
        delete (%s<F32> *) nativePtr;
    }
''' % (cls, cls), '''    if( isInteger == JNI_TRUE )
        delete reinterpret_cast<%s<U8> *>(nativePtr);
    else
        delete reinterpret_cast<%s<F32> *>(nativePtr);
''' % (cls, cls)))
EDITS += [
    (J + "NativeChang2004.cpp", '''    contour->saveInternalContours = enabled;
''', '''    if( enabled )
        contour->saveInternalContours = true;
    else
        contour->saveInternalContours = false;
'''),
    (J + "NativeChang2004.cpp", '''    return (jboolean)contour->saveInternalContours;
''', '''    return contour->saveInternalContours ? JNI_TRUE : JNI_FALSE;
'''),
    (J + "NativeImageConvolve.cpp", '''    switch( type ) {
        case 1:
            return BorderType::EXTENDED;

        case 3:
            return BorderType::REFLECT;

        case 4:
            return BorderType::WRAP;

        case 5:
            return BorderType::ZERO;
    }
    throw std::invalid_argument("Unknown Java border type");
''', '''    if( type == 5 )
        return BorderType::ZERO;
    if( type == 4 )
        return BorderType::WRAP;
    if( type == 3 )
        return BorderType::REFLECT;
    if( type != 1 )
        throw std::invalid_argument("Unknown Java border type");
    return BorderType::EXTENDED;
'''),
]
