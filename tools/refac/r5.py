# convolve.h, convolve_kernels.h, config_types.cpp
S = "boofcpp/src/boofcv/"
C = S+"convolve.h"
K = S+"convolve_kernels.h"
EDITS = [
 # naive: helper for the weighted sum
 (C, """                    signed_type sum = 0;
                    for (uint32_t k = 0; k < kernel.width; k++) {
                        int32_t xx = x - kernel.offset + k;
                        sum += kernel.at(k) * input.get(xx, y);
                    }
                    output.at(x, y) = (R)sum;
""", """                    output.at(x, y) = static_cast<R>(row_sum<E>(kernel, input, x, y));
"""),
 (C, """    class ConvolveNaive {
    public:
""", """    class ConvolveNaive {
    public:
        /** Weighted sum along the row */
        template<typename E>
        static typename TypeInfo<E>::signed_type row_sum( const Kernel1D<typename TypeInfo<E>::signed_type>& kernel,
                                                          const ImageBorder<E>& input , uint32_t x , uint32_t y ) {
            typename TypeInfo<E>::signed_type total = 0;
            const int32_t first = static_cast<int32_t>(x) - static_cast<int32_t>(kernel.offset);
            for (uint32_t k = 0; k < kernel.width; k++) {
                total += input.get(first + static_cast<int32_t>(k), y) * kernel[k];
            }
            return total;
        }

"""),
 (C, """                    signed_type sum = 0;
                    for (uint32_t k = 0; k < kernel.width; k++) {
                        int32_t xx = x - kernel.offset + k;
                        sum += kernel.at(k) * input.get(xx, y);
                    }
                    output.at(x, y) = (E)((sum + divisor/2)/divisor);
""", """                    const signed_type sum = row_sum<E>(kernel, input, x, y);
                    const signed_type half = divisor/2;
                    output.at(x, y) = static_cast<E>((half + sum)/divisor);
"""),
 (C, """                    signed_type sum = 0;
                    for (uint32_t k = 0; k < kernel.width; k++) {
                        int32_t yy = y - kernel.offset + k;
                        for (uint32_t l = 0; l < kernel.width; l++) {
                            int32_t xx = x - kernel.offset + l;
                            sum += kernel.at(l,k) * input.get(xx, yy);
                        }
                    }
                    output.at(x, y) = (R)sum;
""", """                    signed_type sum = 0;
                    int32_t yy = static_cast<int32_t>(y - kernel.offset);
                    for (uint32_t k = 0; k < kernel.width; k++, yy++) {
                        int32_t xx = static_cast<int32_t>(x - kernel.offset);
                        for (uint32_t l = 0; l < kernel.width; l++, xx++) {
                            const signed_type w = kernel.at(l,k);
                            sum += w * input.get(xx, yy);
                        }
                    }
                    output.unsafe_at(x, y) = static_cast<R>(sum);
"""),
 # just border
 (C, """                for (; j < jEnd; j++) {
                    signed_type total = 0;
                    signed_type weight = 0;
                    uint32_t indexSrc = jStart;
                    for (uint32_t k = kernel.width - (offsetR + 1 + j - jStart); k < kernel.width; k++) {
                        signed_type w = kernel.data[k];
                        weight += w;
                        total += input.data[indexSrc++] * w;
                    }
                    output.data[indexDest++] = (E)((total+weight/2)/weight);
                }

                j += input.width - (offsetL+offsetR);
                indexDest += input.width - (offsetL+offsetR);

                jEnd = jStart + input.width;
                for (; j < jEnd; j++) {
                    signed_type total = 0;
                    signed_type weight = 0;
                    uint32_t indexSrc = j - offsetL;
                    uint32_t kEnd = jEnd - indexSrc;

                    for (uint32_t k = 0; k < kEnd; k++) {
                        signed_type w = kernel.data[k];
                        weight += w;
                        total += input.data[indexSrc++] * w;
                    }
                    output.data[indexDest++] = (E)((total+weight/2)/weight);
                }
            }
        }
""", """                for (uint32_t x = 0; x < offsetL; x++) {
                    *(&output.data[indexDest] + x) = normalized<E>(&kernel.data[offsetL - x], &input.data[jStart], offsetR + 1 + x);
                }

                for (uint32_t x = input.width - offsetR; x < input.width; x++) {
                    const uint32_t first = x - offsetL;
                    output.data[indexDest + x] = normalized<E>(&kernel.data[0], &input.data[jStart + first], input.width - first);
                }
            }
        }

        /** Normalized integer convolution at one point, rounded */
        template<class E, class S>
        static E normalized( const S* kernel , const E* pixels , uint32_t length ) {
            S total = 0;
            S weight = 0;
            for (uint32_t k = 0; k < length; k++) {
                weight += kernel[k];
                total += pixels[k] * kernel[k];
            }
            return static_cast<E>((total+weight/2)/weight);
        }
"""),
 (C, """                uint32_t j = input.offset + i * input.stride;
                uint32_t jStart = j;
                uint32_t jEnd = j + offsetL;

                for (uint32_t x = 0""", """                const uint32_t jStart = input.offset + i * input.stride;

                for (uint32_t x = 0"""),
 # inner
 (C, """                E* output_ptr = &output.data[output.offset + i*output.stride + kernel.offset];
                E* input_row_ptr = &input.data[input.offset + i*input.stride];
                E* input_end_ptr = &input_row_ptr[input.width-(kernel.width-1)];

                while( input_row_ptr != input_end_ptr) {
                    E* input_ptr = input_row_ptr++;
                    signed_type* kernel_ptr = kernel.data.data;
                    signed_type* kernel_end = &kernel_ptr[kernel.width];

                    signed_type total = 0;
                    while( kernel_ptr != kernel_end ) {
                        total += (*input_ptr++) * (*kernel_ptr++);
                    }
                    *output_ptr++ = static_cast<E>((total+halfDivisor)/divisor);
                }
""", """                E* out = &output.data[output.offset + i*output.stride + kernel.offset];
                const E* in = &input.data[input.offset + i*input.stride];
                const uint32_t count = input.width-kernel.width+1;

                for( uint32_t x = 0; x < count; x++ ) {
                    signed_type total = 0;
                    for( uint32_t k = 0; k < kernel.width; k++ ) {
                        total += in[x+k] * kernel.data[k];
                    }
                    total += halfDivisor;
                    out[x] = static_cast<E>(total/divisor);
                }
"""),
 (C, """            int32_t yEnd = input.height-(kernel.width-kernel.offset-1);

            for( int32_t y = kernel.offset; y < yEnd; y++ ) {
                E* output_ptr = &output.data[output.offset+y*output.stride];

                E* input_col_ptr = &input.data[input.offset + (y-kernel.offset)*input.stride];
                E* input_end_ptr = &input_col_ptr[input.width];

                while( input_col_ptr != input_end_ptr ){
                    E* input_ptr = input_col_ptr++;
                    signed_type* kernel_ptr = kernel.data.data;
                    signed_type* kernel_end = &kernel_ptr[kernel.width];

                    signed_type total = 0;
                    while( kernel_ptr != kernel_end ) {
                        total += (*input_ptr) * (*kernel_ptr++);
                        input_ptr += input.stride;
                    }
                    *output_ptr++ = static_cast<E>((total+halfDivisor)/divisor);
                }
            }
""", """            const uint32_t rows = input.height-kernel.width+1;

            for( uint32_t row = 0; row < rows; row++ ) {
                const uint32_t y = row + kernel.offset;

                for( uint32_t x = 0; x < input.width; x++ ){
                    signed_type total = 0;
                    for( uint32_t k = 0; k < kernel.width; k++ ) {
                        total += input.unsafe_at(x,row+k) * kernel[k];
                    }
                    output.unsafe_at(x,y) = static_cast<E>((total+halfDivisor)/divisor);
                }
            }
"""),
 (C, """                    signed_type* kernel_ptr = kernel.data.data;
                    for( uint32_t ki = 0; ki < kernel.width; ki++ ) {
                        E* input_ptr = &input.data[input.offset + (y+ki-offsetL)*input.stride + x-offsetL];
                        for( uint32_t kj = 0; kj <  kernel.width; kj++ ) {
                            total += *input_ptr++ * *kernel_ptr++;
                        }
                    }
                    output.data[indexDst++] = (E)((total+halfDivisor)/divisor);
""", """                    for( uint32_t ki = 0; ki < kernel.width; ki++ ) {
                        for( uint32_t kj = 0; kj <  kernel.width; kj++ ) {
                            total += input.unsafe_at(x-offsetL+kj,y-offsetL+ki) * kernel.at(kj,ki);
                        }
                    }
                    output.data[indexDst++] = static_cast<E>((total+halfDivisor)/divisor);
"""),
 # border
 (C, """                R* output_ptr = &output.data[output.offset + y * output.stride];
                for ( int32_t x = 0; x < offset; x++ ) {
                    signed_type total = 0;
                    signed_type *kernel_ptr = kernel.data.data;
                    for (int32_t k = 0; k < kernel.width; k++) {
                        total += input.get(x+k-offset,y) * *kernel_ptr++;
                    }
                    *output_ptr++ = static_cast<R>(total);
                }

                output_ptr = &output.data[output.offset + y * output.stride + output.width-borderRight];
                for ( int32_t x = output.width-borderRight; x < output.width; x++ ) {
                    signed_type total = 0;
                    signed_type *kernel_ptr = kernel.data.data;
                    int32_t xx = x-offset; // No noticeable change. Keeping it here to avoid doing it again.
                    int32_t xx_end = xx + kernel.width;
                    while( xx != xx_end ) {
                        total += input.get(xx++,y) * *kernel_ptr++;
                    }
                    *output_ptr++ = static_cast<R>(total);
                }
""", """                R* row = &output.data[output.offset + y * output.stride];
                const int32_t endInner = output.width-borderRight;
                for ( int32_t x = 0; x < output.width; x++ ) {
                    // jump over the inner region
                    if( x == offset && offset < endInner ) {
                        x = endInner;
                        if( x >= output.width )
                            break;
                    }
                    row[x] = static_cast<R>(ConvolveNaive::row_sum<E>(kernel, input, x, y));
                }
"""),
 # entry points
 (C, """            if( kernel.width >= input.width ) {
                ConvolveNormalizedNaive::horizontal(kernel, input, output);
            } else {
                signed_type sum = kernel.sum();
                if( sum == (signed_type)1) {
                    ConvolveImage_Inner::horizontal_unrolled(kernel, input, output);
                } else {
                    ConvolveImage_Inner::horizontal_unrolled(kernel, input, output, sum);
                }
                ConvolveNormalized_JustBorder::horizontal(kernel, input, output);
            }
""", """            if( kernel.width >= input.width ) {
                ConvolveNormalizedNaive::horizontal(kernel, input, output);
                return;
            }
            ConvolveNormalized_JustBorder::horizontal(kernel, input, output);
            const signed_type sum = kernel.sum();
            if( sum != static_cast<signed_type>(1) )
                ConvolveImage_Inner::horizontal_unrolled(kernel, input, output, sum);
            else
                ConvolveImage_Inner::horizontal_unrolled(kernel, input, output);
"""),
 # kernels
 (K, """            sum_type total = 0;
            for( uint32_t i = 0; i < data.size; i++ ) {
                total += data[i];
            }
            return total;
""", """            sum_type total = 0;
            const E* end = data.data + data.size;
            for( const E* ptr = data.data; ptr != end; ++ptr )
                total += *ptr;
            return total;
"""),
 (K, """            E max = this->data.at(0);
            for( uint32_t i = 1; i < this->data.size; i++ ) {
                const E&a = this->data[i];
                if( a > max ) {
                    max = a;
                }
            }
            return max;
""", """            E max = this->data.at(0);
            for( uint32_t i = 1; i < this->data.size; i++ )
                max = std::max(max, this->data[i]);
            return max;
"""),
 (K, """            E min = std::abs(this->data.at(0));
            for( uint32_t i = 1; i < this->data.size; i++ ) {
                const E&a = std::abs(this->data[i]);
                if( a < min ) {
                    min = a;
                }
            }
            return min;
""", """            E min = std::abs(this->data.at(0));
            for( uint32_t i = 1; i < this->data.size; i++ ) {
                const E a = std::abs(this->data[i]);
                min = a < min ? a : min;
            }
            return min;
"""),
 (K, """            E* ptr = this->data.data;
            for (auto& x : l ) {
                if( x.size() != this->width ) {
                    throw invalid_argument("missmatched row width");
                }
                for(auto& y : x ) {
                    *ptr++ = y;
                }
            }
""", """            uint32_t index = 0;
            for (const auto& row : l ) {
                if( row.size() != this->width )
                    throw invalid_argument("missmatched row width");
                for(const auto& value : row ) {
                    this->data[index++] = value;
                }
            }
"""),
 (K, """            for( uint32_t i = 0; i < width; i++ ) {
                k.data[i] = 1;
            }
""", """            k.data.fill(1);
"""),
 (K, """            typename Kernel1D<E>::sum_type sum = kernel.sum();

            for( uint32_t i = 0; i < kernel.data.size; i++ ) {
                kernel.data[i] /= sum;
            }
""", """            const typename Kernel1D<E>::sum_type total = kernel.sum();

            E* value = kernel.data.data;
            for( uint32_t remaining = kernel.data.size; remaining; remaining-- ) {
                *value = *value / total;
                value++;
            }
"""),
 (K, """            if( width <= 0 )
                width = radiusForSigma(sigma,0)*2+1;
            else if( sigma <= 0 )
                sigma = sigmaForRadius(width/2,0);
""", """            if( width > 0 ) {
                if( sigma <= 0 )
                    sigma = sigmaForRadius(width/2,0);
            } else {
                width = 1 + 2*radiusForSigma(sigma,0);
            }
"""),
 (K, """            double adjust = width%2==1?0:0.5;
            for (int i = 0; i < width; i++) {
                ret.data[i] = static_cast<E>(computePDF(0, sigma, i-radius+adjust));
            }
""", """            const bool odd = width%2 != 0;
            for (int i = 0; i < width; i++) {
                double location = i-radius;
                if( !odd )
                    location += 0.5;
                ret.data[i] = static_cast<E>(computePDF(0, sigma, location));
            }
"""),
 (K, """            for( int i = 0; i < width; i++ ) {
                for( int j = 0; j < width; j++ ) {
                    output.at(i,j) = seed.at(i)*seed.at(j);
                }
            }
""", """            for( int row = 0; row < width; row++ ) {
                const E a = seed[row];
                for( int col = 0; col < width; col++ ) {
                    output.data[row*width + col] = a*seed[col];
                }
            }
"""),
 (K, """            for( int i = 0; i < original.width; i++ ) {
                output[i] = static_cast<E>(original[i]/min);
            }
""", """            for( uint32_t i = 0; i < original.width; ++i ) {
                const F64 scaled = original.at(i)/min;
                output.at(i) = static_cast<E>(scaled);
            }
"""),
 (S+"config_types.cpp", """    double size;
    if (fraction >= 0) {
        size = fraction*totalLength;
        size = fmax(size, length);
    } else {
        size = length;
    }

    return size;
""", """    if (fraction < 0)
        return length;
    const double size = totalLength*fraction;
    return size > length ? size : length;
"""),
 (S+"config_types.cpp", """    if( size >= 0 )
        return (int)(size+0.5); // size is always more than zero. Ignore incorrect rounding
    else
        return -1;
""", """    return size < 0 ? -1 : static_cast<int>(size+0.5);
"""),
]
