J = "boofcpp-jni/src/main/cpp/"
A = "boofcpp-jni/src/main/java/org/boofcpp/"
N = J + "JNIBoofCPP.cpp"
EDITS = [
    # a helper acquires and releases
    (J + "NativeImageConvolve.cpp", '''JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(''', '''} // extern C

/** pixels of a Java image for as long as the object lives */
template<class T>
class CriticalPixels {
    JNIEnv *env;
    jarray array;
    jint mode;
public:
    T* pixels;
    CriticalPixels( JNIEnv *env , jobject array , jint mode ) : env(env), array((jarray)array), mode(mode) {
        pixels = static_cast<T*>(env->GetPrimitiveArrayCritical(this->array, nullptr));
    }
    ~CriticalPixels() {
        env->ReleasePrimitiveArrayCritical(array, pixels, mode);
    }
    CriticalPixels( const CriticalPixels& ) = delete;
    CriticalPixels& operator=( const CriticalPixels& ) = delete;
};

template<class T>
static T* acquire( JNIEnv *env , jobject array ) {
    return static_cast<T*>(env->GetPrimitiveArrayCritical((jarray)array, nullptr));
}

extern "C" {

JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal('''),
    (J + "NativeImageConvolve.cpp", '''            ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
''', '''            ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
            output.image.data = acquire<S16>(env,output.info.jdata);
            input.image.data = acquire<U8>(env,input.info.jdata);
'''),
    (J + "NativeImageConvolve.cpp", '''        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);

        ConvolveImage::horizontal(*kernel, *border.get(),output.image);

        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
        delete kernel;
''', '''        {
            CriticalPixels<F32> in(env,input.info.jdata,JNI_ABORT);
            CriticalPixels<F32> out(env,output.info.jdata,0);
            input.image.data = in.pixels;
            output.image.data = out.pixels;
            ConvolveImage::horizontal(*kernel, *border,output.image);
        }
        delete kernel;
'''),
    # lookup helper shared by the natives of a file
    (J + "NativeChang2004.cpp", '''JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour
        (JNIEnv *env, jobject obj, jboolean enabled)
{
    jclass objClass = env->GetObjectClass(obj);
    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
    auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);

    contour->saveInternalContours = enabled;
}
''', '''static LinearContourLabelChang2004& finder( JNIEnv *env, jobject obj ) {
    jclass theClass = env->GetObjectClass(obj);
    const char* const field = "nativePtr";
    jfieldID handle = safe_GetFieldID(env, theClass, field, "J");
    return *reinterpret_cast<LinearContourLabelChang2004*>(env->GetLongField(obj, handle));
}

JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour
        (JNIEnv *env, jobject obj, jboolean enabled)
{
    finder(env,obj).saveInternalContours = enabled == JNI_TRUE;
}
'''),
    (J + "NativeChang2004.cpp", '''    jclass objClass = env->GetObjectClass(obj);
    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);

    contour->minContourSize = static_cast<uint32_t>(size);
''', '''    LinearContourLabelChang2004& contour = finder(env,obj);
    contour.minContourSize = (uint32_t)size;
'''),
    (J + "NativeChang2004.cpp", '''    for( uint32_t i = 0; i < contour->contours.size(); i++ ) {
        ContourPacked &p = contour->contours.at(i);

        // internal contour ids will be grabbed from storagePoints
        grow_queue.setTo(p.internalIndexes);
        env->CallVoidMethod(obj,midAdd,(jint)p.id,(jint)p.externalIndex);
    }
''', '''    for( const ContourPacked& p : contour->contours ) {
        const jint id = static_cast<jint>(p.id);
        const jint externalIndex = static_cast<jint>(p.externalIndex);
        // internal contour ids will be grabbed from storagePoints
        grow_queue.setTo(p.internalIndexes);
        env->CallVoidMethod(obj,midAdd,id,externalIndex);
    }
'''),
    (J + "NativeBlockOtsu.cpp", '''    jlong ptr;
    if( isInteger ) {
        ptr = (jlong)new ThresholdBlockOtsu<U8>((bool)otsu2,region_width,(double)tuning,(double)scale,(bool)down,(bool)thresholdFromLocalBlocks);
    } else {
        ptr = (jlong)new ThresholdBlockOtsu<F32>((bool)otsu2,region_width,(double)tuning,(double)scale,(bool)down,(bool)thresholdFromLocalBlocks);
    }
    fid = env->GetFieldID(objClass, "nativePtr", "J");
    env->SetLongField(obj, fid, ptr);
''', '''    const bool isDown = down == JNI_TRUE;
    const bool local = thresholdFromLocalBlocks == JNI_TRUE;
    const bool variant = otsu2 == JNI_TRUE;

    void* created = nullptr;
    if( !isInteger ) {
        created = new ThresholdBlockOtsu<F32>(variant,region_width,tuning,scale,isDown,local);
    } else {
        created = new ThresholdBlockOtsu<U8>(variant,region_width,tuning,scale,isDown,local);
    }
    env->SetLongField(obj, env->GetFieldID(objClass, "nativePtr", "J"), reinterpret_cast<jlong>(created));
'''),
    (J + "NativeBlockOtsu.cpp", '''    if( isInteger ) {
        delete (ThresholdBlockOtsu<U8> *) nativePtr;
    } else {
        delete (ThresholdBlockOtsu<F32> *) nativePtr;
    }
''', '''    if( isInteger == JNI_FALSE ) {
        auto* filter = reinterpret_cast<ThresholdBlockOtsu<F32>*>(nativePtr);
        delete filter;
        return;
    }
    auto* filter = reinterpret_cast<ThresholdBlockOtsu<U8>*>(nativePtr);
    delete filter;
'''),
    (N, '''jint safe_GetInt( JNIEnv *env, jclass& objClass, jobject& obj, const char* name ) {
    jfieldID fid = safe_GetFieldID(env,objClass,name,"I");
    return env->GetIntField(obj, fid);
}
''', '''jint safe_GetInt( JNIEnv *env, jclass& objClass, jobject& obj, const char* name ) {
    static const char type[] = "I";
    const jint value = env->GetIntField(obj, safe_GetFieldID(env,objClass,name,type));
    return value;
}
'''),
    (N, '''    ret.width = safe_GetInt(env,objClass,jimage, "width");
    ret.height = safe_GetInt(env,objClass,jimage, "height");
    ret.stride = safe_GetInt(env,objClass,jimage, "stride");
    ret.offset = safe_GetInt(env,objClass,jimage, "startIndex");

    // Get the elements (you probably have to fetch the length of the array as well
    ret.dataLength = env->GetArrayLength((jarray)ret.jdata);
''', '''    // Get the elements (you probably have to fetch the length of the array as well
    ret.dataLength = env->GetArrayLength((jarray)ret.jdata);

    ret.offset = safe_GetInt(env,objClass,jimage, "startIndex");
    ret.stride = safe_GetInt(env,objClass,jimage, "stride");
    ret.height = safe_GetInt(env,objClass,jimage, "height");
    ret.width = safe_GetInt(env,objClass,jimage, "width");
'''),
    (N, '''    bool aquired = false;
    if( this->data == nullptr ) {
        aquired = true;
        criticalGet();
    }

    for (int i = 0; i < this->size; ++i) {
        this->data[i] = input[i];
    }

    if( aquired ) {
        criticalRelease();
    }
''', '''    const bool held = this->data != nullptr;
    if( !held )
        criticalGet();

    int i = 0;
    for( uint32_t value : input )
        this->data[i++] = (jint)value;

    if( !held )
        criticalRelease();
'''),
    (N, '''        for( uint32_t j = 0; j < src._size_of_block; j++ ) {
            array_dst[j*2  ] = array_src[j].x;
            array_dst[j*2+1] = array_src[j].y;
        }
''', '''        jint* dst = array_dst;
        for( const auto* p = array_src; p != array_src + src._size_of_block; ++p ) {
            *dst++ = p->x;
            *dst++ = p->y;
        }
'''),
    (A + "threshold/NativeBlockOtsu.java", '''    public native void nativeprocess(T input, GrayU8 output);
    public native void nativedestroy();
''', '''    public native void nativedestroy();

    // see NativeBlockOtsu.cpp
    public native void nativeprocess(final T gray, final GrayU8 binary);
'''),
    (A + "contour/NativeChang2004.java", '''    protected void addContour( int id , int externalIndex ) {
        ContourPacked P = storageContours.grow();
        P.id = id;
        P.externalIndex = externalIndex;
''', '''    /** invoked by the native code, once for each contour */
    protected void addContour( int which , int external ) {
        final ContourPacked P = storageContours.grow();
        P.externalIndex = external;
        P.id = which;
'''),
    (A + "NativeBase.java", '''    protected long nativePtr;
    protected boolean isInteger;
''', '''    protected boolean isInteger;
    protected long nativePtr = 0L;
'''),
]
