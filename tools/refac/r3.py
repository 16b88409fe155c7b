# binary_ops.cpp, binary_ops.h, image_border.h
S = "boofcpp/src/boofcv/"
EDITS = [
 (S+"binary_ops.cpp", """        int end = indexA + inputA.width;
        for( ; indexA < end; indexA++,indexB++,indexOut++) {
            output.data[indexOut] = static_cast<U8>(inputA.data[indexA] && inputB.data[indexB]);
        }
""", """        for( uint32_t x = 0; x < inputA.width; x++ ) {
            const bool a = inputA.data[indexA+x] != 0;
            const bool b = inputB.data[indexB+x] != 0;
            output.data[indexOut+x] = static_cast<U8>(a & b);
        }
"""),
 (S+"binary_ops.cpp", """        uint32_t indexA = inputA.offset + y*inputA.stride;
        uint32_t indexB = inputB.offset + y*inputB.stride;
        uint32_t indexOut = output.offset + y*output.stride;

        uint32_t end = indexA + inputA.width;
        for( ; indexA < end; indexA++,indexB++,indexOut++) {
            output.data[indexOut] = static_cast<U8>(inputA.data[indexA] || inputB.data[indexB]);
        }
""", """        const U8* a = &inputA.data[inputA.offset + y*inputA.stride];
        const U8* b = &inputB.data[inputB.offset + y*inputB.stride];
        U8* out = &output.data[output.offset + y*output.stride];

        const U8* end = a + inputA.width;
        while( a != end ) {
            *out++ = (*a++ | *b++) ? 1 : 0;
        }
"""),
 (S+"binary_ops.cpp", """    int sum = input.unsafe_at(x, y);
    if (x > 0) sum += input.unsafe_at(x - 1, y);
    if (x + 1 < input.width) sum += input.unsafe_at(x + 1, y);
    if (y > 0) sum += input.unsafe_at(x, y - 1);
    if (y + 1 < input.height) sum += input.unsafe_at(x, y + 1);
    return sum;
""", """    const int left  = x == 0 ? 0 : input.unsafe_at(x - 1, y);
    const int up    = y == 0 ? 0 : input.unsafe_at(x, y - 1);
    const int right = x + 1 >= input.width ? 0 : input.unsafe_at(x + 1, y);
    const int down  = y + 1 >= input.height ? 0 : input.unsafe_at(x, y + 1);
    return up + left + input.unsafe_at(x, y) + right + down;
"""),
 (S+"binary_ops.cpp", """    for (uint32_t y = 0; y < input.height; y++) {
        const bool row = y == 0 || y + 1 == input.height;
        for (uint32_t x = 0; x < input.width; x++) {
            if (row || x == 0 || x + 1 == input.width)
                output.unsafe_at(x, y) = static_cast<U8>(sumNeighborhood4(input, x, y) == 5);
        }
    }
""", """    for (uint32_t y = 0; y < input.height; y++) {
        for (uint32_t x = 0; x < input.width; x++) {
            if (!isImageBorder(input, x, y))
                continue;
            output.unsafe_at(x, y) = sumNeighborhood4(input, x, y) == 5 ? 1 : 0;
        }
    }
"""),
 (S+"binary_ops.cpp", """void boofcv::BinaryImageOps::erode4(""", """static bool isImageBorder(const Gray<U8>& input, uint32_t x, uint32_t y) {
    return x == 0 || y == 0 || x == input.width - 1 || y == input.height - 1;
}

void boofcv::BinaryImageOps::erode4("""),
 (S+"binary_ops.cpp", """        for (; indexIn < end; indexIn++, indexOut++) {
            if ((input.data[indexIn] + input.data[indexIn - 1] + input.data[indexIn + 1] +
                 input.data[indexIn - input.stride] + input.data[indexIn + input.stride]) == 5)
                output.data[indexOut] = 1;
            else
                output.data[indexOut] = 0;
        }
""", """        for (; indexIn < end; indexIn++, indexOut++) {
            const U8* p = &input.data[indexIn];
            const int total = *p + *(p - 1) + *(p + 1) + *(p - input.stride) + *(p + input.stride);
            output.data[indexOut] = static_cast<U8>(total == 5);
        }
"""),
 (S+"binary_ops.cpp", """    const int h = input.height - 1;
    const int w = input.width - 2;

    for (uint32_t y = 1; y < h; y++) {
        uint32_t indexIn = input.offset + y * input.stride + 1;
        uint32_t indexOut = output.offset + y * output.stride + 1;

        const uint32_t end = indexIn + w;

        for (; indexIn < end; indexIn++, indexOut++) {
            if ((input.data[indexIn] +
                 input.data[indexIn - 1] + input.data[indexIn + 1] +
                 input.data[indexIn - input.stride] + input.data[indexIn + input.stride]) > 0)
                output.data[indexOut] = 1;
            else
                output.data[indexOut] = 0;
        }
    }
""", """    for (uint32_t y = 1; y + 1 < input.height; y++) {
        for (uint32_t x = 1; x + 1 < input.width; x++) {
            const U8* p = &input.data[input.offset + y * input.stride + x];
            output.unsafe_at(x, y) = static_cast<U8>((p[0] | p[-1] | p[1] | p[-static_cast<ptrdiff_t>(input.stride)] | p[input.stride]) != 0);
        }
    }
"""),
 (S+"binary_ops.cpp", """    variance += 0.001; // avoid divide by zero
    // multiply by threshold twice in an effort to have the image's scaling not effect the tuning parameter
    int adjustment =  (int)(tuning*threshold*tuning*threshold/variance+0.5);
    threshold += down ? -adjustment : adjustment;
    threshold = (int)(scale*std::max(threshold,0.0)+0.5);
""", """    variance += 0.001; // avoid divide by zero
    // multiply by threshold twice in an effort to have the image's scaling not effect the tuning parameter
    const int adjustment = static_cast<int>(tuning*threshold*tuning*threshold/variance+0.5);
    double adjusted;
    if( down )
        adjusted = threshold - adjustment;
    else
        adjusted = threshold + adjustment;
    if( adjusted < 0.0 )
        adjusted = 0.0;
    threshold = static_cast<int>(scale*adjusted+0.5);
"""),
 (S+"binary_ops.cpp", """    double dlength = histogram.size;
    double sum = 0;
    for (uint32_t i = 0; i < histogram.size; i++)
        sum += (i / dlength) * histogram[i];
""", """    const double dlength = histogram.size;
    const double sum = weightedSum(histogram);
"""),
 (S+"binary_ops.cpp", """void boofcv::ComputeOtsu::computeOtsu(const""", """static double weightedSum( const GrowArray<uint32_t>& histogram ) {
    const double dlength = histogram.size;
    double sum = 0;
    for (uint32_t i = 0; i < histogram.size; i++) {
        const double level = i / dlength;
        sum += level * histogram[i];
    }
    return sum;
}

void boofcv::ComputeOtsu::computeOtsu(const"""),
 (S+"binary_ops.cpp", """        double varBetween = (double) wB * (double) wF * (mB - mF) * (mB - mF);

        // Check if new maximum found
        if (varBetween > variance) {
            variance = varBetween;
            threshold = i;
        }
""", """        const double difference = mB - mF;
        const double varBetween = (double) wB * (double) wF * difference * difference;

        // Check if new maximum found
        if (varBetween <= variance) continue;
        variance = varBetween;
        threshold = i;
"""),
 (S+"binary_ops.h", """            if( down ) {
                for( uint32_t y = 0; y < input.height; y++ ) {
                    T* input_ptr = &input.data[input.offset + y*input.stride];
                    U8* output_ptr = &output.data[output.offset + y*output.stride];

                    for( uint32_t i = input.width; i; i-- ) {
                        *output_ptr++ = static_cast<U8>( *input_ptr++ <= threshold );
                    }
                }
            } else {
                for( uint32_t y = 0; y < input.height; y++ ) {
                    T* input_ptr = &input.data[input.offset + y*input.stride];
                    U8* output_ptr = &output.data[output.offset + y*output.stride];

                    for( uint32_t i = input.width; i; i-- ) {
                        *output_ptr++ = static_cast<U8>( *input_ptr++ > threshold );
                    }
                }
            }
""", """            for( uint32_t y = 0; y < input.height; y++ ) {
                const T* input_ptr = &input.data[input.offset + y*input.stride];
                U8* output_ptr = &output.data[output.offset + y*output.stride];

                for( uint32_t x = 0; x < input.width; x++ ) {
                    const bool below = input_ptr[x] <= threshold;
                    output_ptr[x] = static_cast<U8>( below == down );
                }
            }
"""),
 (S+"binary_ops.h", """            if( down ) {
                for( uint32_t y = 0; y < input.height; y++ ) {
                    T* mean_ptr = &mean.data[mean.offset + y*mean.stride];
                    T* input_ptr = &input.data[input.offset + y*input.stride];
                    U8* output_ptr = &output.data[output.offset + y*output.stride];

                    for( uint32_t i = input.width; i; i-- ) {
                        *output_ptr++ = static_cast<U8>( *input_ptr++ <= (*mean_ptr++)*scale);
                    }
                }
            } else {
                for( uint32_t y = 0; y < input.height; y++ ) {
                    T* mean_ptr = &mean.data[mean.offset + y*mean.stride];
                    T* input_ptr = &input.data[input.offset + y*input.stride];
                    U8* output_ptr = &output.data[output.offset + y*output.stride];

                    for( uint32_t i = input.width; i; i-- ) {
                        *output_ptr++ = static_cast<U8>((*input_ptr++)*scale > *mean_ptr++);
                    }
                }
            }
        }
""", """            for( uint32_t y = 0; y < input.height; y++ ) {
                threshold_row(&input.data[input.offset + y*input.stride], &mean.data[mean.offset + y*mean.stride],
                              &output.data[output.offset + y*output.stride], input.width, scale, down);
            }
        }

        template<class T>
        static void threshold_row( const T* input , const T* mean , U8* output , uint32_t length , float scale , bool down ) {
            for( uint32_t x = 0; x < length; x++ ) {
                if( down )
                    output[x] = static_cast<U8>( input[x] <= mean[x]*scale );
                else
                    output[x] = static_cast<U8>( input[x]*scale > mean[x] );
            }
        }
"""),
 (S+"binary_ops.h", """            auto range = static_cast<uint32_t>(1+max_value - min_value);
            GrowArray<uint32_t> histogram(range);
""", """            GrowArray<uint32_t> histogram;
            histogram.resize(static_cast<uint32_t>(max_value - min_value + 1));
"""),
 (S+"image_border.h", """            if( x >= 0 && y >= 0 && x < image->width && y < image->height ) {
                return image->at(x,y);
            }
            return outside_get(x,y);
""", """            const bool outside = x < 0 || y < 0 || x >= image->width || y >= image->height;
            return outside ? outside_get(x,y) : image->unsafe_at(x,y);
"""),
 (S+"image_border.h", """            adjust(x,this->image->width);
            adjust(y,this->image->height);
            return this->image->unsafe_at(x,y);
""", """            const Gray<E>& image = *this->image;
            adjust(y,image.height);
            adjust(x,image.width);
            return image.data[image.offset + y*image.stride + x];
"""),
 (S+"image_border.h", """            if( x < 0 )
                x = 0;
            else if( x >= max_value )
                x = max_value-1;
""", """            const int32_t last = static_cast<int32_t>(max_value)-1;
            x = std::max(0, std::min(x, last));
"""),
 (S+"image_border.h", """            x = x < 0 ? (-x)%period : x%period;
            if( x >= n )
                x = period-x;
""", """            const int32_t a = std::abs(x)%period;
            x = a < n ? a : period-a;
"""),
 (S+"image_border.h", """            x %= n;
            if( x < 0 )
                x += n;
""", """            x = ((x%n)+n)%n;
"""),
 (S+"image_border.h", """                case EXTENDED:
                    return std::make_shared<ImageBorderExtend<E>>();
                case REFLECT:
                    return std::make_shared<ImageBorderReflect<E>>();
                case WRAP:
                    return std::make_shared<ImageBorderWrap<E>>();
                case ZERO:
                    return value_SB((E)0);
""", """                case ZERO:
                    return value_SB<E>(0);
                case WRAP:
                    return std::make_shared<ImageBorderWrap<E>>();
                case REFLECT:
                    return std::make_shared<ImageBorderReflect<E>>();
                case EXTENDED: {
                    return std::make_shared<ImageBorderExtend<E>>();
                }
"""),
]
