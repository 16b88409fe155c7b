# image_misc_ops.h, image_statistics.h, packed_sets.h, image_blur.h
S = "boofcpp/src/boofcv/"
EDITS = [
 (S+"image_misc_ops.h", """        template<class E>
        static void fill( Gray<E>& image , E value ) {
            if( image.subimage ) {
                for( uint32_t y = 0; y < image.height; y++ ) {
                    E *ptr = &image.data[image.offset + y*image.stride];
                    E *end = &ptr[image.width];
                    while (ptr != end) {
                        *ptr++ = value;
                    }
                }
            } else {
                E *ptr = image.data;
                E *end = &ptr[image.total_pixels()];
                while (ptr != end) {
                    *ptr++ = value;
                }
            }
        }
""", """        /** Writes the same value into 'count' consecutive elements */
        template<class E>
        static void fill_run( E* ptr , uint32_t count , E value ) {
            for( uint32_t i = 0; i < count; i++ ) {
                ptr[i] = value;
            }
        }

        template<class E>
        static void fill( Gray<E>& image , E value ) {
            if( !image.subimage ) {
                fill_run(image.data, image.total_pixels(), value);
                return;
            }
            uint32_t row = image.offset;
            for( uint32_t y = 0; y < image.height; y++, row += image.stride ) {
                fill_run(image.data + row, image.width, value);
            }
        }
"""),
 (S+"image_misc_ops.h", """                for (uint32_t x = 0; x < input.width; x++) {
                    input.data[indexTop++] = value;
                    input.data[indexBottom++] = value;
                }
""", """                fill_run(&input.data[indexTop], input.width, value);
                fill_run(&input.data[indexBottom], input.width, value);
"""),
 (S+"image_misc_ops.h", """            uint32_t h = input.height-radius;
            uint32_t indexStart = input.offset + radius*input.stride;
            for (uint32_t x = 0; x < radius; x++) {
                uint32_t indexLeft = indexStart + x;
                uint32_t indexRight = indexStart + input.width-1-x;
                for (uint32_t y = radius; y < h; y++) {
                    input.data[indexLeft] = value;
                    input.data[indexRight] = value;

                    indexLeft += input.stride;
                    indexRight += input.stride;
                }
            }
""", """            for (uint32_t y = radius; y + radius < input.height; y++) {
                E* row = &input.data[input.offset + y*input.stride];
                fill_run(row, radius, value);
                fill_run(row + (input.width - radius), radius, value);
            }
"""),
 (S+"image_misc_ops.h", """                E* ptr = &image.data[image.offset + y*image.stride];
                E* end = &ptr[image.width*image.num_bands];
                while( ptr != end ) {
                    *ptr++ = value;
                }
""", """                fill_run(&image.data[image.offset + y*image.stride], image.width*image.num_bands, value);
"""),
 (S+"image_statistics.h", """                const T* ptr = &input.data[input.offset + y*input.stride];
                const T* end = &ptr[input.width];
                while( ptr != end ) {
                    const T& v = *ptr++;
                    if( v < min_value ) {
                        min_value = v;
                    }
                }
""", """                const T* row = input.data + (input.offset + y*input.stride);
                for( uint32_t x = 0; x < input.width; x++ ) {
                    min_value = row[x] < min_value ? row[x] : min_value;
                }
"""),
 (S+"image_statistics.h", """                const T* ptr = &input.data[input.offset + y*input.stride];
                const T* end = &ptr[input.width];
                while( ptr != end ) {
                    const T& v = *ptr++;
                    if( v > max_value ) {
                        max_value = v;
                    }
                }
""", """                for( uint32_t x = 0; x < input.width; x++ ) {
                    max_value = std::max(max_value, input.unsafe_at(x,y));
                }
"""),
 (S+"image_statistics.h", """                uint32_t index = input.offset + y*input.stride;
                uint32_t end = index + input.width;
                while( index < end ) {
                    total += input.data[index++];
                }
            }
            return total;""", """                total += sum_row(&input.data[input.offset + y*input.stride], input.width);
            }
            return total;"""),
 (S+"image_statistics.h", """        template<class T>
        static typename TypeInfo<T>::sum_type sum(""", """        template<class T>
        static typename TypeInfo<T>::sum_type sum_row( const T* row , uint32_t length ) {
            typename TypeInfo<T>::sum_type total = 0;
            for( const T* end = row + length; row != end; ++row )
                total += *row;
            return total;
        }

        template<class T>
        static typename TypeInfo<T>::sum_type sum("""),
 (S+"image_statistics.h", """            typename TypeInfo<T>::sum_type a = sum(input);
            return static_cast<T>(a / static_cast<typename TypeInfo<T>::sum_type>(input.width * input.height));""",
 """            typedef typename TypeInfo<T>::sum_type sum_type;
            const uint32_t N = input.total_pixels();
            return static_cast<T>(sum(input) / static_cast<sum_type>(N));"""),
 (S+"image_statistics.h", """                for( ; index < end; index++ ) {
                    histogram[static_cast<uint32_t>(input.data[index] - minValue)]++;
                }
""", """                while( index < end ) {
                    const T value = input.data[index++];
                    const uint32_t bin = static_cast<uint32_t>(value - minValue);
                    histogram.at(bin) += 1;
                }
"""),
 (S+"packed_sets.h", """            uint32_t b = set.block*_size_of_block + set.offset + index_element;

            return this->blocks[b / _size_of_block][b % _size_of_block];
        }
""", """            return _element(set, index_element);
        }

        /** Looks up the storage of an element. No bounds checks. */
        T& _element( const PackedSetInfo& set , uint32_t index_element ) const {
            const uint32_t b = index_element + set.offset + set.block*_size_of_block;
            const uint32_t which = b / _size_of_block;
            return this->blocks[which][b - which*_size_of_block];
        }
"""),
 (S+"packed_sets.h", """                uint32_t b = set.block*_size_of_block + set.offset + i;
                output.push_back( this->blocks[b / _size_of_block][b % _size_of_block] );
""", """                output.push_back( _element(set, i) );
"""),
 (S+"packed_sets.h", """                uint32_t b = set.block*_size_of_block + set.offset + i;
                this->blocks[b / _size_of_block][b % _size_of_block] = input[i];
""", """                _element(set, i) = input[i];
"""),
 (S+"packed_sets.h", """            set.block = _total_element/_size_of_block;
            set.offset = _total_element%_size_of_block;
""", """            const uint32_t total = _total_element;
            set.block = total/_size_of_block;
            set.offset = total - set.block*_size_of_block;
"""),
 (S+"packed_sets.h", """            if( block == _number_of_blocks ) {
                std::unique_ptr<T[]> added(new T[_size_of_block]);
                T** tmp = new T*[block+1];
                for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                    tmp[i] = blocks[i];
                }
                tmp[_number_of_blocks] = added.release();
                delete []blocks;
                this->blocks = tmp;
                this->_number_of_blocks++;
            }
            this->blocks[block][_total_element%_size_of_block] = element;
            _total_element++;
        }
""", """            if( block >= _number_of_blocks ) {
                _add_block();
            }
            this->blocks[block][_total_element++ % _size_of_block] = element;
        }

        void _add_block() {
            std::unique_ptr<T[]> added(new T[_size_of_block]);
            T** tmp = new T*[_number_of_blocks+1];
            std::copy(blocks, blocks + _number_of_blocks, tmp);
            tmp[_number_of_blocks] = added.release();
            std::swap(tmp, this->blocks);
            this->_number_of_blocks += 1;
            delete []tmp;
        }
"""),
 (S+"packed_sets.h", """            if( set_info.size() > 0 ) {
                this->_total_element -= set_info.back().size;
                this->set_info.pop_back();
            }
""", """            if( set_info.empty() )
                return;
            const uint32_t removed = set_info.back().size;
            this->set_info.pop_back();
            this->_total_element = this->_total_element - removed;
"""),
 (S+"packed_sets.h", """            if( set_info.size() == 0 )
                return 0;
            return set_info.back().size;""", """            return set_info.empty() ? 0 : set_info[set_info.size()-1].size;"""),
 (S+"packed_sets.h", "#include", "#include <algorithm>\n#include"),
 # image blur
 (S+"image_blur.h", """                *ptr_out++ = static_cast<E>((total+halfDivisor)/divisor);

                E* ptr_front = &input.data[ indexIn - kernelWidth ];
                E* ptr_back = &input.data[ indexIn ];
                uint32_t N = input.width - kernelWidth;

                for( uint32_t i = N; i; i-- ) {
                    total = (total - *ptr_front++) + *ptr_back++;

                    *ptr_out++ = static_cast<E>((total+halfDivisor)/divisor);
                }
""", """                *ptr_out++ = rounded_mean<E>(total,divisor,halfDivisor);

                const E* row = &input.data[ indexIn - kernelWidth ];
                uint32_t N = input.width - kernelWidth;

                for( uint32_t i = 0; i < N; i++ ) {
                    total -= row[i];
                    total += row[i + kernelWidth];

                    *ptr_out++ = rounded_mean<E>(total,divisor,halfDivisor);
                }
"""),
 (S+"image_blur.h", """        template< class E>
        static void inner_horizontal(const Gray<E>& input, Gray<E>& output, uint32_t radius ,
                                     typename std::enable_if<std::is_integral<E>""", """        /** Integer mean, rounded to the nearest */
        template< class E, class S>
        static E rounded_mean( S total , S divisor , S half ) {
            return static_cast<E>((total+half)/divisor);
        }

        template< class E>
        static void inner_horizontal(const Gray<E>& input, Gray<E>& output, uint32_t radius ,
                                     typename std::enable_if<std::is_integral<E>"""),
 (S+"image_blur.h", """                for( uint32_t x = 0; x < input.width; x++) {
                    sum_type total = totals[ x ]  - *ptr_front++;
                    totals[ x ] = total += *ptr_back++;

                    *ptr_out++ = static_cast<E>((total+halfDivisor)/divisor);
                }
""", """                for( uint32_t x = 0; x < input.width; x++) {
                    totals[ x ] -= ptr_front[x];
                    totals[ x ] += ptr_back[x];

                    ptr_out[x] = rounded_mean<E>(totals[x],divisor,halfDivisor);
                }
"""),
 (S+"image_blur.h", """            Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
            if( kernel.width > input.height ) {
                ConvolveNormalized::vertical(kernel,input,output);
            } else {
                ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
                inner_vertical(input, output, radius);
            }
""", """            const Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
            const bool kernel_fits = kernel.width <= input.height;
            if( !kernel_fits ) {
                ConvolveNormalized::vertical(kernel,input,output);
                return;
            }
            inner_vertical(input, output, radius);
            ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
"""),
]
