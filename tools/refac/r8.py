V = "boofcpp/src/boofcv/convolve.h"
B = "boofcpp/src/boofcv/image_blur.h"
EDITS = [
    # inner horizontal, integer with divisor: indexes instead of pointers
    (V, '''            for( uint32_t i = 0; i < input.height; i++ ) {
                E* output_ptr = &output.data[output.offset + i*output.stride + kernel.offset];
                E* input_row_ptr = &input.data[input.offset + i*input.stride];
                E* input_end_ptr = &input_row_ptr[input.width-(kernel.width-1)];

                while( input_row_ptr != input_end_ptr) {
                    E* input_ptr = input_row_ptr++;
                    signed_type* kernel_ptr = kernel.data.data;
                    signed_type* kernel_end = &kernel_ptr[kernel.width];

                    signed_type total = 0;
                    while( kernel_ptr != kernel_end ) {
                        total += (*input_ptr++) * (*kernel_ptr++);
                    }
                    *output_ptr++ = static_cast<E>((total+halfDivisor)/divisor);
                }
            }
''', '''            const uint32_t count = input.width-(kernel.width-1);
            for( uint32_t i = 0; i < input.height; i++ ) {
                const uint32_t outRow = output.offset + i*output.stride + kernel.offset;
                const uint32_t inRow = input.offset + i*input.stride;

                for( uint32_t x = 0; x < count; ++x ) {
                    const signed_type total = dot(&input.data[inRow+x], 1u, kernel.data.data, kernel.width);
                    output.data[outRow+x] = static_cast<E>((total+halfDivisor)/divisor);
                }
            }
'''),
    (V, '''        template<typename E, typename R>
        static void horizontal_unrolled( const Kernel1D<typename TypeInfo<E>::signed_type>& kernel ,
                                         const Gray<E>& input, Gray<R>& output )
        {
''', '''        template<class E, class K>
        static K dot( const E* in , uint32_t step , const K* k , uint32_t n ) {
            K total = 0;
            for( uint32_t i = 0; i < n; i++, in += step )
                total += (*in) * k[i];
            return total;
        }

        template<typename E, typename R>
        static void horizontal_unrolled( const Kernel1D<typename TypeInfo<E>::signed_type>& kernel ,
                                         const Gray<E>& input, Gray<R>& output )
        {
'''),
    # switch removed
    (V, '''            switch( kernel.width ) {
                case 3:vertical(kernel,input,output,divisor);return;
                case 5:vertical(kernel,input,output,divisor);return;
                case 7:vertical(kernel,input,output,divisor);return;
                case 9:vertical(kernel,input,output,divisor);return;
                case 11:vertical(kernel,input,output,divisor);return;
                case 13:vertical(kernel,input,output,divisor);return;
            }
            vertical(kernel,input,output,divisor);
''', '''            vertical(kernel,input,output,divisor);
'''),
    # vertical integer: helper with a stride
    (V, '''                while( input_col_ptr != input_end_ptr ){
                    E* input_ptr = input_col_ptr++;
                    signed_type* kernel_ptr = kernel.data.data;
                    signed_type* kernel_end = &kernel_ptr[kernel.width];

                    signed_type total = 0;
                    while( kernel_ptr != kernel_end ) {
                        total += (*input_ptr) * (*kernel_ptr++);
                        input_ptr += input.stride;
                    }
                    *output_ptr++ = static_cast<E>((total+halfDivisor)/divisor);
                }
''', '''                for( ; input_col_ptr != input_end_ptr; ++input_col_ptr, ++output_ptr ){
                    const signed_type total = dot(input_col_ptr, input.stride, kernel.data.data, kernel.width);
                    *output_ptr = static_cast<E>((total+halfDivisor)/divisor);
                }
'''),
    # vertical no divisor: column sums reordered loops
    (V, '''            int32_t yEnd = input.height-(kernel.width-kernel.offset-1);

            for( int32_t y = kernel.offset; y < yEnd; y++ ) {
                R* output_ptr = &output.data[output.offset+y*output.stride];

                E* input_col_ptr = &input.data[input.offset + (y-kernel.offset)*input.stride];
                E* input_end_ptr = &input_col_ptr[input.width];

                while( input_col_ptr != input_end_ptr ){
''', '''            const int32_t yEnd = input.height-(kernel.width-kernel.offset-1);
            int32_t y = kernel.offset;

            while( y < yEnd ) {
                R* output_ptr = &output.data[output.offset+y*output.stride];

                E* input_col_ptr = &input.data[input.offset + (y-kernel.offset)*input.stride];
                E* input_end_ptr = input_col_ptr + input.width;
                ++y;

                while( input_col_ptr < input_end_ptr ){
'''),
    # 2D inner: kernel index computed
    (V, '''                    signed_type total = 0;
                    signed_type* kernel_ptr = kernel.data.data;
                    for( uint32_t ki = 0; ki < kernel.width; ki++ ) {
                        E* input_ptr = &input.data[input.offset + (y+ki-offsetL)*input.stride + x-offsetL];
                        for( uint32_t kj = 0; kj <  kernel.width; kj++ ) {
                            total += (*input_ptr++) * (*kernel_ptr++);
                        }
                    }
                    output.data[indexDst++] = (R)total;
''', '''                    signed_type total = 0;
                    for( uint32_t ki = 0; ki < kernel.width; ki++ ) {
                        for( uint32_t kj = 0; kj <  kernel.width; kj++ ) {
                            total += input.at(x+kj-offsetL,y+ki-offsetL) * kernel.data[ki*kernel.width+kj];
                        }
                    }
                    output.data[indexDst++] = (R)total;
'''),
    # border horizontal: helper for one pixel
    (V, '''                R* output_ptr = &output.data[output.offset + y * output.stride];
                for ( int32_t x = 0; x < offset; x++ ) {
                    signed_type total = 0;
                    signed_type *kernel_ptr = kernel.data.data;
                    for (int32_t k = 0; k < kernel.width; k++) {
                        total += input.get(x+k-offset,y) * *kernel_ptr++;
                    }
                    *output_ptr++ = static_cast<R>(total);
                }

                output_ptr = &output.data[output.offset + y * output.stride + output.width-borderRight];
                for ( int32_t x = output.width-borderRight; x < output.width; x++ ) {
                    signed_type total = 0;
                    signed_type *kernel_ptr = kernel.data.data;
                    int32_t xx = x-offset; // No noticeable change. Keeping it here to avoid doing it again.
                    int32_t xx_end = xx + kernel.width;
                    while( xx != xx_end ) {
                        total += input.get(xx++,y) * *kernel_ptr++;
                    }
                    *output_ptr++ = static_cast<R>(total);
                }
''', '''                R* output_row = &output.data[output.offset + y * output.stride];
                for ( int32_t x = 0; x < offset; x++ ) {
                    output_row[x] = static_cast<R>(rowSum(kernel,input,x-offset,y));
                }
                for ( int32_t x = output.width-borderRight; x < output.width; x++ ) {
                    output_row[x] = static_cast<R>(rowSum(kernel,input,x-offset,y));
                }
'''),
    (V, '''    class ConvolveImage_Border {
    public:
''', '''    class ConvolveImage_Border {
        template<class E>
        static typename TypeInfo<E>::signed_type rowSum( const Kernel1D<typename TypeInfo<E>::signed_type>& kernel ,
                                                         const ImageBorder<E>& input, int32_t x0 , int32_t y ) {
            typename TypeInfo<E>::signed_type total = 0;
            for( uint32_t k = 0; k < kernel.width; k++ ) {
                total += input.get(x0+(int32_t)k,y) * kernel.data[k];
            }
            return total;
        }
    public:
'''),
    # border vertical: rows outside, columns inside
    (V, '''                indexDest = output.offset + (output.height-borderBottom) * output.stride + x;
                for (int32_t y = output.height-borderBottom; y < output.height; y++, indexDest += output.stride) {
                    signed_type total = 0;
                    signed_type *kernel_ptr = kernel.data.data;
                    for (uint32_t k = 0; k < kernel.width; k++ ) {
                        total += input.get(x,y+k-kernel.offset) * *kernel_ptr++;
                    }
                    output.data[indexDest] = static_cast<R>(total);
                }
            }
''', '''            }
            for (int32_t y = output.height-borderBottom; y < output.height; y++) {
                for ( uint32_t x = 0; x < output.width; x++ ) {
                    signed_type total = 0;
                    for (uint32_t k = 0; k < kernel.width; k++ ) {
                        total += input.get(x,y+k-kernel.offset) * kernel.data[k];
                    }
                    output.at(x,y) = static_cast<R>(total);
                }
            }
'''),
    # early return
    (V, '''            output.reshape(input.getWidth(),input.getHeight());

            if( kernel.width >= output.width ) {
                ConvolveNaive::horizontal(kernel, input, output);
            } else {
                ConvolveImage_Inner::horizontal_unrolled(kernel, *input.image, output);
                ConvolveImage_Border::horizontal(kernel, input, output);
            }
''', '''            const uint32_t w = input.getWidth();
            output.reshape(w,input.getHeight());

            const bool tooSmall = w <= kernel.width;
            if( tooSmall ) {
                ConvolveNaive::horizontal(kernel, input, output);
                return;
            }
            ConvolveImage_Border::horizontal(kernel, input, output);
            ConvolveImage_Inner::horizontal_unrolled(kernel, *input.image, output);
'''),
    (V, '''                signed_type sum = kernel.sum();
                if( sum == (signed_type)1) {
                    ConvolveImage_Inner::horizontal_unrolled(kernel, input, output);
                } else {
                    ConvolveImage_Inner::horizontal_unrolled(kernel, input, output, sum);
                }
                ConvolveNormalized_JustBorder::horizontal(kernel, input, output);
''', '''                ConvolveNormalized_JustBorder::horizontal(kernel, input, output);
                const signed_type sum = kernel.sum();
                if( sum != (signed_type)1) {
                    ConvolveImage_Inner::horizontal_unrolled(kernel, input, output, sum);
                } else {
                    ConvolveImage_Inner::horizontal_unrolled(kernel, input, output);
                }
'''),
    # the running mean
    (B, '''                for( uint32_t i = N; i; i-- ) {
                    total = (total - *ptr_front++) + *ptr_back++;

                    *ptr_out++ = static_cast<E>((total+halfDivisor)/divisor);
                }
''', '''                for( uint32_t i = 0; i < N; i++ ) {
                    total -= ptr_front[i];
                    total += ptr_back[i];
                    ptr_out[i] = static_cast<E>((total+halfDivisor)/divisor);
                }
'''),
    (B, '''                    total += input.data[indexIn];
                }
                totals[x] = total;
                output.data[indexOut] = static_cast<E>((total+halfDivisor)/divisor);
            }

            // change the order it is processed in to reduce cache misses
            for( uint32_t y = radius+1; y < output.height-radius; y++ ) {
                uint32_t indexIn = input.offset + (y+radius)*input.stride;
                uint32_t indexOut = output.offset + y*output.stride;

                E* ptr_front = &input.data[ indexIn - backStep ];
                E* ptr_back = &input.data[ indexIn ];
                E* ptr_out = &output.data[indexOut];

                for( uint32_t x = 0; x < input.width; x++) {
                    sum_type total = totals[ x ]  - *ptr_front++;
                    totals[ x ] = total += *ptr_back++;

                    *ptr_out++ = static_cast<E>((total+halfDivisor)/divisor);
                }
            }
''', '''                    total += input.data[indexIn];
                }
                output.data[indexOut] = static_cast<E>((halfDivisor+total)/divisor);
                totals[x] = total;
            }

            // change the order it is processed in to reduce cache misses
            const uint32_t yEnd = output.height-radius;
            uint32_t indexIn = input.offset + (2*radius+1)*input.stride;
            uint32_t indexOut = output.offset + (radius+1)*output.stride;
            for( uint32_t y = radius+1; y < yEnd; y++, indexIn += input.stride, indexOut += output.stride ) {
                for( uint32_t x = 0; x < input.width; x++) {
                    totals[ x ] = totals[ x ] - input.data[ indexIn - backStep + x ] + input.data[ indexIn + x ];
                    output.data[indexOut + x] = static_cast<E>((totals[ x ]+halfDivisor)/divisor);
                }
            }
'''),
    (B, '''            checkSameShape(input,output);

            typedef typename TypeInfo<E>::signed_type signed_type;

            Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
            if( kernel.width > input.width ) {
                ConvolveNormalized::horizontal(kernel,input,output);
            } else {
                ConvolveNormalized_JustBorder::horizontal(kernel, input ,output );
                inner_horizontal(input, output, radius);
            }
''', '''            typedef typename TypeInfo<E>::signed_type signed_type;

            checkSameShape(input,output);

            const uint32_t width = radius*2+1;
            Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(width);
            if( width <= input.width ) {
                inner_horizontal(input, output, radius);
                ConvolveNormalized_JustBorder::horizontal(kernel, input ,output );
                return;
            }
            ConvolveNormalized::horizontal(kernel,input,output);
'''),
    (B, '''            output.reshape(input.width, input.height);
            storage.reshape(input.width, input.height);

            Kernel1D<signed_type> kernel = FactoryKernel::gaussian1D<signed_type>(sigma,width);

''', '''            const Kernel1D<signed_type> kernel = FactoryKernel::gaussian1D<signed_type>(sigma,width);

            storage.reshape(input.width, input.height);
            output.reshape(input.width, input.height);

'''),
]
