J = "boofcpp-jni/src/main/cpp/"
A = "boofcpp-jni/src/main/java/org/boofcpp/"
EDITS = []
for n in ("NativeBlockOtsu", "NativeLocalMean"):
    EDITS.append((A + "threshold/" + n + ".java", '''        output.reshape(input.width,input.height);
        nativeprocess(input,output);
''', '''        prepare(input,output);
        nativeprocess(input,output);
'''))
EDITS += [
    (A + "threshold/NativeThresholdBase.java", '''    @Override
    public ImageType<T> getInputType() {
''', '''    protected void prepare(T src, boofcv.struct.image.GrayU8 dst) {
        int w = src.getWidth();
        int h = src.getHeight();
        dst.reshape(w,h);
    }

    @Override
    public ImageType<T> getInputType() {
'''),
    (A + "threshold/NativeBlockMean.java", '''        nativedestroy();
        super.finalize();
''', '''        try {
            nativedestroy();
        } finally {
            super.finalize();
        }
'''),
    (A + "NativeBase.java", '''    public void setImageType( Class<T> inputType ) {
        this.imageType = ImageType.single(inputType);
        this.isInteger = this.imageType.getDataType().isInteger();
        this.inputBits = this.imageType.getDataType().getNumBits();
        this.outputBits = this.imageType.getDataType().getNumBits();
    }
''', '''    public void setImageType( Class<T> inputType ) {
        this.imageType = ImageType.single(inputType);
        describe(this.imageType);
        this.outputBits = this.inputBits;
    }

    private void describe( ImageType<T> type ) {
        isInteger = type.getDataType().isInteger();
        inputBits = type.getDataType().getNumBits();
    }
'''),
    (A + "contour/NativeChang2004.java", '''        ContourPacked P = storageContours.grow();
        P.id = id;
        P.externalIndex = externalIndex;
        P.internalIndexes.setTo(storagePoints);
''', '''        final ContourPacked contour = storageContours.grow();
        contour.internalIndexes.setTo(this.storagePoints);
        contour.externalIndex = externalIndex;
        contour.id = id;
'''),
    (A + "contour/NativeChang2004.java", '''        storageContours.reset();
        packedPoints.reset();
        labeled.reshape(binary.width,binary.height);
''', '''        labeled.reshape(binary.width,binary.height);
        forget();
'''),
    (A + "contour/NativeChang2004.java", '''    public native void native_process(GrayU8 binary, GrayS32 labeled);
''', '''    private void forget() {
        this.packedPoints.reset();
        this.storageContours.reset();
    }

    public native void native_process(GrayU8 binary, GrayS32 labeled);
'''),
    (A + "convolve/NativeConvolveImage.java", '''        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());

        output.reshape(input.width,input.height);

        nativeVertical(kernel,input,output,borderToType(border).ordinal());
''', '''        output.reshape(input.width,input.height);
        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());

        BorderType type = borderToType(border);
        int code = type.ordinal();
        nativeVertical(kernel,input,output,code);
'''),
    (A + "convolve/NativeConvolveImage.java", '''            if( v == 0 ) {
                return BorderType.ZERO;
            }
        } else if( border instanceof ImageBorderValue.Value_I ) {
''', '''            if( v != 0 )
                throw new RuntimeException("Only zero is supported");
            return BorderType.ZERO;
        } else if( border instanceof ImageBorderValue.Value_I ) {
'''),
    (A + "convolve/NativeImageBlurOps.java", '''        storage = InputSanityCheck.checkDeclare(input,storage);

        setImageType(input.imageType.getImageClass());

        nativeGaussian(input,output,sigma,radius,storage);
''', '''        T work = InputSanityCheck.checkDeclare(input,storage);

        setImageType(input.imageType.getImageClass());

        nativeGaussian(input,output,sigma,radius,work);
'''),
    (J + "NativeChang2004.cpp", '''    for( uint32_t i = 0; i < contour->contours.size(); i++ ) {
        ContourPacked &p = contour->contours.at(i);

        // internal contour ids will be grabbed from storagePoints
        grow_queue.setTo(p.internalIndexes);
        env->CallVoidMethod(obj,midAdd,(jint)p.id,(jint)p.externalIndex);
    }
''', '''    uint32_t i = 0;
    while( i < contour->contours.size() ) {
        const ContourPacked *p = &contour->contours[i++];
        grow_queue.setTo(p->internalIndexes);
        const jint index = (jint)p->externalIndex;
        const jint id = (jint)p->id;
        env->CallVoidMethod(obj,midAdd,id,index);
    }
'''),
    (J + "JNIBoofCPP.cpp", '''        for( uint32_t j = 0; j < src._size_of_block; j++ ) {
            array_dst[j*2  ] = array_src[j].x;
            array_dst[j*2+1] = array_src[j].y;
        }
''', '''        jint *to = array_dst;
        const boofcv::Point2D<boofcv::S32> *end = array_src + src._size_of_block;
        for( auto from = array_src; from != end; from++ ) {
            *to++ = from->x;
            *to++ = from->y;
        }
'''),
    (J + "JNIBoofCPP.cpp", '''set_info.offset*2,set_info.size,set_info.block);''', '''set_info.offset+set_info.offset,set_info.size,set_info.block);'''),
]
