# JNI layer: guards, templates, helpers
J = "boofcpp-jni/src/main/cpp/"
B = J+"NativeBlockMean.cpp"
I = J+"NativeImageBlurOps.cpp"
N = J+"JNIBoofCPP.cpp"
H = J+"NativeChang2004.cpp"
V = J+"NativeImageConvolve.cpp"

def blur(call):
    out = []
    for T, w in (("U8", "wrapCriticalGrayU8"), ("F32", "wrapCriticalGrayF32")):
        old = """        ImageAndInfo<Gray<%s>,JImageInfo> input = %s(env,jinput);
        ImageAndInfo<Gray<%s>,JImageInfo> output = %s(env,joutput);
        ImageAndInfo<Gray<%s>,JImageInfo> storage = %s(env,jstorage);

        input.image.data = (%s*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
        output.image.data = (%s*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
        storage.image.data = (%s*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);

        %s

        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
""" % (T, w, T, w, T, w, T, T, T, call)
        new = """        ImageAndInfo<Gray<%s>,JImageInfo> input = %s(env,jinput);
        ImageAndInfo<Gray<%s>,JImageInfo> output = %s(env,joutput);
        ImageAndInfo<Gray<%s>,JImageInfo> storage = %s(env,jstorage);

        CriticalGuard<%s> lockInput(env,input,JNI_ABORT);
        CriticalGuard<%s> lockOutput(env,output,0);
        CriticalGuard<%s> lockStorage(env,storage,JNI_ABORT);

        %s
""" % (T, w, T, w, T, w, T, T, T, call)
        out.append((I, old, new))
    return out

EDITS = blur("BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);") + \
        blur("BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);") + [
 (J+"JNIBoofCPP.h", """void copy_into_java(""", """/** Holds an image's array for as long as it is in scope */
template<class E>
class CriticalGuard {
    JNIEnv* env;
    ImageAndInfo<boofcv::Gray<E>,JImageInfo>& image;
    jint mode;
public:
    CriticalGuard( JNIEnv* env , ImageAndInfo<boofcv::Gray<E>,JImageInfo>& image , jint mode ) : env(env), image(image), mode(mode) {
        image.image.data = (E*)env->GetPrimitiveArrayCritical((jarray)image.info.jdata, 0);
    }
    ~CriticalGuard() {
        env->ReleasePrimitiveArrayCritical((jarray)image.info.jdata, image.image.data, mode);
    }
};

void copy_into_java("""),
 # block mean
 (B, """extern "C" {""", """static jlong handleOf( JNIEnv *env, jobject obj ) {
    jclass objClass = env->GetObjectClass(obj);
    return env->GetLongField(obj, env->GetFieldID(objClass, "nativePtr", "J"));
}

static bool handlesIntegers( JNIEnv *env, jobject obj ) {
    jclass objClass = env->GetObjectClass(obj);
    return env->GetBooleanField(obj, env->GetFieldID(objClass, "isInteger", "Z")) != 0;
}

template<class E>
static void processWith( JNIEnv *env, jlong handle , ImageAndInfo<Gray<E>,JImageInfo>& input , ImageAndInfo<Gray<U8>,JImageInfo>& output ) {
    input.image.data = (E*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
    output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
    try {
        auto* alg = (ThresholdBlockMean<E>*)handle;
        alg->process(input.image, output.image);
    } catch( ... ) {
        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
        throw;
    }
    env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
}

extern "C" {"""),
 (B, """            ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
            try {
                ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
            } catch( ... ) {
                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
                throw;
            }
            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
""", """            ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
            processWith<U8>(env, nativePtr, input, output);
"""),
 (B, """            ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
            try {
                ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
            } catch( ... ) {
                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
                throw;
            }
            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
""", """            ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
            processWith<F32>(env, nativePtr, input, output);
"""),
 (B, """    jclass objClass = env->GetObjectClass(obj);
    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
    jboolean isInteger = env->GetBooleanField(obj, fid);
    fid = env->GetFieldID(objClass, "nativePtr", "J");
    jlong nativePtr = env->GetLongField(obj, fid);

    if( isInteger ) {
        delete (ThresholdBlockMean<U8> *) nativePtr;
    } else {
        delete (ThresholdBlockMean<F32> *) nativePtr;
    }
""", """    const jlong nativePtr = handleOf(env, obj);

    if( !handlesIntegers(env, obj) ) {
        delete (ThresholdBlockMean<F32> *) nativePtr;
    } else {
        delete (ThresholdBlockMean<U8> *) nativePtr;
    }
"""),
 (B, """    jlong ptr;
    if( isInteger ) {
        ptr = (jlong)new ThresholdBlockMean<U8>(region_width,(bool)thresholdFromLocalBlocks,(double)scale,(bool)down);
    } else {
        ptr = (jlong)new ThresholdBlockMean<F32>(region_width,(bool)thresholdFromLocalBlocks,(double)scale,(bool)down);
    }
    fid = env->GetFieldID(objClass, "nativePtr", "J");
    env->SetLongField(obj, fid, ptr);
""", """    const bool local = thresholdFromLocalBlocks != JNI_FALSE;
    const bool isDown = down != JNI_FALSE;
    void* alg;
    if( !isInteger ) {
        alg = new ThresholdBlockMean<F32>(region_width,local,scale,isDown);
    } else {
        alg = new ThresholdBlockMean<U8>(region_width,local,scale,isDown);
    }
    env->SetLongField(obj, safe_GetFieldID(env, objClass, "nativePtr", "J"), (jlong)alg);
"""),
 # JNIBoofCPP
 (N, """    JImageInfo inputInfo = extractInfoCriticalU8(env,jimage);

    output.info = inputInfo;
    output.image = Gray<U8>((U8*)nullptr,(uint32_t)inputInfo.dataLength,
                            (uint32_t)inputInfo.width,(uint32_t)inputInfo.height,
                            (uint32_t)inputInfo.offset,(uint32_t)inputInfo.stride);

    return output;
""", """    output.info = extractInfoCriticalU8(env,jimage);
    output.image = emptyView<U8>(output.info);
    return output;
"""),
 (N, """    JImageInfo inputInfo = extractInfoCriticalF32(env,jimage);

    output.info = inputInfo;
    output.image = Gray<F32>((F32*)nullptr,(uint32_t)inputInfo.dataLength,
                             (uint32_t)inputInfo.width,(uint32_t)inputInfo.height,
                             (uint32_t)inputInfo.offset,(uint32_t)inputInfo.stride);

    return output;
""", """    output.info = extractInfoCriticalF32(env,jimage);
    output.image = emptyView<F32>(output.info);
    return output;
"""),
 (N, """ImageAndInfo<boofcv::Gray<boofcv::U8>,JImageInfo> wrapCriticalGrayU8(""", """/** Image whose array has not been acquired yet */
template<class E>
static Gray<E> emptyView( const JImageInfo& info ) {
    return Gray<E>((E*)nullptr,(uint32_t)info.dataLength,(uint32_t)info.width,(uint32_t)info.height,
                   (uint32_t)info.offset,(uint32_t)info.stride);
}

ImageAndInfo<boofcv::Gray<boofcv::U8>,JImageInfo> wrapCriticalGrayU8("""),
 (N, """    ret.width = safe_GetInt(env,objClass,jimage, "width");
    ret.height = safe_GetInt(env,objClass,jimage, "height");
    ret.stride = safe_GetInt(env,objClass,jimage, "stride");
    ret.offset = safe_GetInt(env,objClass,jimage, "startIndex");

    // Get the elements (you probably have to fetch the length of the array as well
    ret.dataLength = env->GetArrayLength((jarray)ret.jdata);
""", """    ret.dataLength = env->GetArrayLength((jarray)ret.jdata);
    ret.offset = safe_GetInt(env,objClass,jimage, "startIndex");
    ret.stride = safe_GetInt(env,objClass,jimage, "stride");
    ret.height = safe_GetInt(env,objClass,jimage, "height");
    ret.width = safe_GetInt(env,objClass,jimage, "width");
"""),
 (N, """    auto kernel1D = new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset);
    kernel1D->data.set((S32*)data,(uint32_t)length);

    // release java objects
    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);

    // return the results
    return kernel1D;
""", """    std::unique_ptr<boofcv::Kernel1D<S32>> kernel1D;
    try {
        kernel1D.reset(new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset));
        kernel1D->data.set((S32*)data,(uint32_t)length);
    } catch( ... ) {
        env->ReleaseIntArrayElements((jintArray)jarray, data, JNI_ABORT);
        throw;
    }

    // release java objects
    env->ReleaseIntArrayElements((jintArray)jarray, data, JNI_ABORT);

    // return the results
    return kernel1D.release();
"""),
 (N, "#include <stdexcept>", "#include <stdexcept>\n#include <memory>"),
 (N, """    for (int i = 0; i < this->size; ++i) {
        this->data[i] = input[i];
    }
""", """    jint* dst = this->data;
    for ( uint32_t value : input ) {
        *dst++ = static_cast<jint>(value);
    }
"""),
 (N, """        for( uint32_t j = 0; j < src._size_of_block; j++ ) {
            array_dst[j*2  ] = array_src[j].x;
            array_dst[j*2+1] = array_src[j].y;
        }
""", """        jint* dst_ptr = array_dst;
        for( uint32_t j = 0; j < src._size_of_block; j++ ) {
            const boofcv::Point2D<boofcv::S32>& p = array_src[j];
            *dst_ptr++ = p.x;
            *dst_ptr++ = p.y;
        }
"""),
 (N, """        jobject jset = env->CallObjectMethod(object_sets,method_get,(jint)i);
        env->CallVoidMethod(jset,method_bil_set,set_info.offset*2,set_info.size,set_info.block);
""", """        jobject jset = env->CallObjectMethod(object_sets,method_get,(jint)i);
        const jint start = (jint)(2*set_info.offset);
        const jint length = (jint)set_info.size;
        const jint block = (jint)set_info.block;
        env->CallVoidMethod(jset,method_bil_set,start,length,block);
"""),
 # Chang
 (H, """    jclass objClass = env->GetObjectClass(obj);
    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
    auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);

    contour->saveInternalContours = enabled;
""", """    contourOf(env,obj)->saveInternalContours = enabled != JNI_FALSE;
"""),
 (H, """    jclass objClass = env->GetObjectClass(obj);
    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
    auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);

    contour->minContourSize = static_cast<uint32_t>(size);
""", """    LinearContourLabelChang2004* contour = contourOf(env,obj);
    contour->minContourSize = static_cast<uint32_t>(size);
"""),
 (H, """extern "C" {""", """static LinearContourLabelChang2004* contourOf( JNIEnv *env, jobject obj ) {
    jclass objClass = env->GetObjectClass(obj);
    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
    return (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
}

extern "C" {"""),
 (H, """    for( uint32_t i = 0; i < contour->contours.size(); i++ ) {
        ContourPacked &p = contour->contours.at(i);

        // internal contour ids will be grabbed from storagePoints
        grow_queue.setTo(p.internalIndexes);
        env->CallVoidMethod(obj,midAdd,(jint)p.id,(jint)p.externalIndex);
    }
""", """    for( const ContourPacked &p : contour->contours ) {
        // internal contour ids will be grabbed from storagePoints
        grow_queue.setTo(p.internalIndexes);
        const jint id = (jint)p.id;
        const jint external = (jint)p.externalIndex;
        env->CallVoidMethod(obj,midAdd,id,external);
    }
"""),
 (H, """    switch( rule_oridinal ) {
        case 0:
            contour->setConnectRule(ConnectRule::FOUR);
            break;

        case 1:
            contour->setConnectRule(ConnectRule::EIGHT);
            break;

        default:
            throw "Unknown connect rule";
    }
""", """    if( rule_oridinal == 0 )
        contour->setConnectRule(ConnectRule::FOUR);
    else if( rule_oridinal == 1 )
        contour->setConnectRule(ConnectRule::EIGHT);
    else
        throw "Unknown connect rule";
"""),
 (H, """    jfieldID theRule;

    if( contour->getConnectRule() == ConnectRule::FOUR )
        theRule = env->GetStaticFieldID(enumClass , "FOUR", "Lboofcv/struct/ConnectRule;");
    else
        theRule = env->GetStaticFieldID(enumClass , "EIGHT", "Lboofcv/struct/ConnectRule;");
""", """    const char* name = contour->getConnectRule() == ConnectRule::FOUR ? "FOUR" : "EIGHT";
    jfieldID theRule = env->GetStaticFieldID(enumClass , name, "Lboofcv/struct/ConnectRule;");
"""),
 # convolve: release by helper
 (V, """            ConvolveImage::horizontal(*kernel, *border.get(),output.image);

            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
        } else {
            throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
        }

        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
        delete kernel;
""", """            ConvolveImage::horizontal(*kernel, *border.get(),output.image);

            finished(env, output, 0);
        } else {
            throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
        }

        delete kernel;
        finished(env, input, JNI_ABORT);
"""),
 (V, """extern "C" {""", """template<class E>
static void finished( JNIEnv *env, ImageAndInfo<Gray<E>,JImageInfo>& image , jint mode ) {
    jarray array = (jarray)image.info.jdata;
    env->ReleasePrimitiveArrayCritical(array, image.image.data, mode);
}

extern "C" {"""),
]
