# threshold_block_filters.h, image_convert.h
S = "boofcpp/src/boofcv/"
T = S+"threshold_block_filters.h"
EDITS = [
 (T, """            auto requestedBlockWidth = (uint32_t)this->requestedBlockWidth.computeI( std::min(input.width,input.height));
            if( requestedBlockWidth == 0 ) {
                throw invalid_argument("Block size must be at least one pixel");
            }
            if( input.width < requestedBlockWidth || input.height < requestedBlockWidth ) {
                throw invalid_argument("Image is smaller than block size");
            }

            selectBlockSize(input.width,input.height,(uint32_t)requestedBlockWidth);

            this->stats.reshape(input.width/blockWidth,input.height/blockHeight);

            uint32_t innerWidth = input.width%blockWidth == 0 ?
                                input.width : input.width-blockWidth-(input.width%blockWidth);
            uint32_t innerHeight = input.height%blockHeight == 0 ?
                                input.height : input.height-blockHeight-(input.height%blockHeight);

            computeStatistics(input, innerWidth, innerHeight);
""", """            const uint32_t shortest = input.width < input.height ? input.width : input.height;
            const auto requested = static_cast<uint32_t>(this->requestedBlockWidth.computeI(shortest));
            if( requested < 1 ) {
                throw invalid_argument("Block size must be at least one pixel");
            }
            if( shortest < requested ) {
                throw invalid_argument("Image is smaller than block size");
            }

            selectBlockSize(input.width,input.height,requested);

            this->stats.reshape(input.width/blockWidth,input.height/blockHeight);

            computeStatistics(input, innerLength(input.width,blockWidth), innerLength(input.height,blockHeight));
"""),
 (T, """        /**
         * Selects a block size which""", """        /** Length of the region whose blocks are not stretched */
        static uint32_t innerLength( uint32_t length , uint32_t block ) {
            const uint32_t remainder = length%block;
            if( remainder == 0 )
                return length;
            return length - (block + remainder);
        }

        /**
         * Selects a block size which"""),
 (T, """            uint32_t rows = height/requestedBlockWidth;
            uint32_t cols = width/requestedBlockWidth;

            blockHeight = height/rows;
            blockWidth = width/cols;
""", """            blockWidth = width/(width/requestedBlockWidth);
            blockHeight = height/(height/requestedBlockWidth);
"""),
 (T, """            for (uint32_t blockY = 0; blockY < stats.height; blockY++) {
                for (uint32_t blockX = 0; blockX < stats.width; blockX++) {
                    thresholdBlock(blockX,blockY,input,output);
                }
            }
""", """            const uint32_t rows = stats.height, cols = stats.width;
            for (uint32_t row = 0; row != rows; ++row)
                for (uint32_t col = 0; col != cols; ++col)
                    thresholdBlock(col,row,input,output);
"""),
 (T, """            uint32_t indexStats = 0;
            for (uint32_t y = 0; y < innerHeight; y += blockHeight) {
                for (uint32_t x = 0; x < innerWidth; x += blockWidth, indexStats += statPixelStride) {
                    computeBlockStatistics(x,y,blockWidth,blockHeight,indexStats,input);
                }
                // handle the case where the image's width isn't evenly divisible by the block's width
                if( innerWidth != input.width ) {
                    computeBlockStatistics(innerWidth,y,input.width-innerWidth,blockHeight,indexStats,input);
                    indexStats += statPixelStride;
                }
            }
            // handle the case where the image's height isn't evenly divisible by the block's height
            if( innerHeight != input.height ) {
                uint32_t y = innerHeight;
                uint32_t blockHeight = input.height-innerHeight;
                for (uint32_t x = 0; x < innerWidth; x += blockWidth, indexStats += statPixelStride) {
                    computeBlockStatistics(x,y,blockWidth,blockHeight,indexStats,input);
                }
                if( innerWidth != input.width ) {
                    computeBlockStatistics(innerWidth,y,input.width-innerWidth,blockHeight,indexStats,input);
                }
            }
        }
""", """            uint32_t indexStats = 0;
            for (uint32_t y = 0; y < innerHeight; y += blockHeight) {
                indexStats = rowStatistics(input, y, blockHeight, innerWidth, indexStats, statPixelStride);
            }
            // handle the case where the image's height isn't evenly divisible by the block's height
            if( innerHeight < input.height ) {
                rowStatistics(input, innerHeight, input.height-innerHeight, innerWidth, indexStats, statPixelStride);
            }
        }

        /** Statistics of one row of blocks. Returns the index of the next one */
        uint32_t rowStatistics( const T& input, uint32_t y, uint32_t rowHeight, uint32_t innerWidth, uint32_t indexStats, uint32_t step ) {
            for (uint32_t x = 0; x < innerWidth; x += blockWidth) {
                computeBlockStatistics(x,y,blockWidth,rowHeight,indexStats,input);
                indexStats += step;
            }
            // handle the case where the image's width isn't evenly divisible by the block's width
            if( innerWidth < input.width ) {
                computeBlockStatistics(innerWidth,y,input.width-innerWidth,rowHeight,indexStats,input);
                indexStats += step;
            }
            return indexStats;
        }
"""),
 # mean
 (T, """            uint32_t x1 = blockX0==this->stats.width-1 ? input.width : (blockX0+1)*this->blockWidth;
            uint32_t y1 = blockY0==this->stats.height-1 ? input.height: (blockY0+1)*this->blockHeight;

            // define the local 3x3 region in blocks, taking in account the image border
            uint32_t blockX1, blockY1;
            if(this->thresholdFromLocalBlocks) {
                blockX1 = std::min(this->stats.width - 1, blockX0 + 1);
                blockY1 = std::min(this->stats.height - 1, blockY0 + 1);

                blockX0 = blockX0 > 0 ? blockX0 - 1 : 0;
                blockY0 = blockY0 > 0 ? blockY0 - 1 : 0;
            } else {
                blockX1 = blockX0;
                blockY1 = blockY0;
            }

            // Average the mean across local blocks
""", """            uint32_t x1 = blockX0+1 < this->stats.width ? x0 + this->blockWidth : input.width;
            uint32_t y1 = blockY0+1 < this->stats.height ? y0 + this->blockHeight : input.height;

            // define the local 3x3 region in blocks, taking in account the image border
            uint32_t blockX1 = blockX0, blockY1 = blockY0;
            if(this->thresholdFromLocalBlocks) {
                if( blockX1 + 1 < this->stats.width ) blockX1++;
                if( blockY1 + 1 < this->stats.height ) blockY1++;
                if( blockX0 > 0 ) blockX0--;
                if( blockY0 > 0 ) blockY0--;
            }

            // Average the mean across local blocks
"""),
 (T, """            E mean = sum/((blockY1-blockY0+1)*(blockX1-blockX0+1));
""", """            const uint32_t countX = blockX1-blockX0+1;
            const uint32_t countY = blockY1-blockY0+1;
            E mean = sum/(countX*countY);
"""),
 (T, """                E* inptr = &input.data[input.offset + y*input.stride + x0];
                U8* outptr = &output.data[output.offset + y*output.stride + x0];
                E* end = &inptr[x1-x0];

                while( inptr != end ) {
                    *outptr++ = static_cast<U8>(down == (*inptr++ <= mean));
                }
""", """                for (uint32_t x = x0; x < x1; x++) {
                    const bool below = input.unsafe_at(x,y) <= mean;
                    output.unsafe_at(x,y) = static_cast<U8>(down ? below : !below);
                }
"""),
 (T, """                E* ptr = &input.data[input.offset + (y0+y)*input.stride + x0];
                E* end = &ptr[width];
                while( ptr != end ) {
                    sum += *ptr++;
                }
            }
            if( std::numeric_limits<sum_type>::is_integer )
                sum = static_cast<sum_type>(scale*sum/(width*height)+0.5f);
            else {
                sum = static_cast<sum_type>(scale*sum/(width*height));
            }
            this->stats.data[indexStats] = static_cast<E>(sum);
""", """                const E* ptr = &input.data[input.offset + (y0+y)*input.stride + x0];
                for (uint32_t x = 0; x < width; x++) {
                    sum += ptr[x];
                }
            }
            const uint32_t area = width*height;
            const float rounding = std::numeric_limits<sum_type>::is_integer ? 0.5f : 0.0f;
            const sum_type average = static_cast<sum_type>(scale*sum/area + rounding);
            this->stats.data[indexStats] = static_cast<E>(average);
"""),
 # otsu
 (T, """                E* input_ptr = &input.data[input.offset + (y0+y)*input.stride + x0];
                E* end = &input_ptr[width];
                while( input_ptr != end ) {
                    stats_ptr[U8(*input_ptr++)]++;
                }
""", """                for (uint32_t x = 0; x < width; x++) {
                    const U8 level = static_cast<U8>(input.unsafe_at(x0+x,y0+y));
                    stats_ptr[level] += 1;
                }
"""),
 (T, """                S32* stats_ptr = &this->stats.data[this->stats.index_of(blockX0,y,0)];
                for (uint32_t x = blockX0; x <= blockX1; x++) {
                    for (uint32_t i = 0; i < histogram.size; i++) {
                        histogram[i] += *stats_ptr++;
                    }
                }
            }

            // this can vary across the image at the borders
            uint32_t total = 0;
            for (uint32_t i = 0; i < histogram.size; i++) {
                total += histogram[i];
            }
""", """                for (uint32_t x = blockX0; x <= blockX1; x++) {
                    const S32* stats_ptr = &this->stats.data[this->stats.index_of(x,y,0)];
                    for (uint32_t i = 0; i < histogram.size; i++) {
                        histogram[i] += stats_ptr[i];
                    }
                }
            }

            // this can vary across the image at the borders
            uint32_t total = 0;
            const uint32_t* bin = histogram.data;
            for (uint32_t remaining = histogram.size; remaining > 0; remaining--) {
                total += *bin++;
            }
"""),
 (T, """                uint32_t indexInput = input.offset + y*input.stride + x0;
                uint32_t indexOutput = output.offset + y*output.stride + x0;
                uint32_t end = indexOutput + (x1-x0);
                for (; indexOutput < end; indexOutput++, indexInput++ ) {
                    output.data[indexOutput] = static_cast<U8>(otsu.down == ((U8)(input.data[indexInput]) <= otsu.threshold));
""", """                const E* row = &input.data[input.offset + y*input.stride];
                U8* out = &output.data[output.offset + y*output.stride];
                for (uint32_t x = x0; x < x1; x++) {
                    const U8 value = static_cast<U8>(row[x]);
                    const bool below = value <= otsu.threshold;
                    out[x] = static_cast<U8>(otsu.down == below);
"""),
 # min max
 (T, """                    if( localMin < min )
                        min = localMin;
                    if( localMax > max )
                        max = localMax;
                }
            }
""", """                    min = std::min(min,localMin);
                    max = std::max(max,localMax);
                }
            }
            const bool textureless = max-min <= this->minimumSpread;
"""),
 (T, """                for (uint32_t i = x1-x0; i ; i-- ) {
                    if( max-min <= this->minimumSpread ) {
                        *output_ptr++ = 1;
                        input_ptr++;
                    } else {
                        auto average = static_cast<sum_type>(scale*((max+min)/2));
                        *output_ptr++ = static_cast<U8>( down == *input_ptr++ <= average );
                    }
                }
""", """                const uint32_t length = x1-x0;
                if( textureless ) {
                    std::fill(output_ptr, output_ptr + length, static_cast<U8>(1));
                    continue;
                }
                const auto average = static_cast<sum_type>(scale*((max+min)/2));
                for (uint32_t i = 0; i < length; i++ ) {
                    output_ptr[i] = static_cast<U8>( down == (input_ptr[i] <= average) );
                }
"""),
 (T, """            E min,max;
            min = max = input.at(x0,y0);

            for (uint32_t y = 0; y < height; y++) {
                uint32_t indexInput = input.offset + (y0+y)*input.stride + x0;
                for (uint32_t x = 0; x < width; x++) {
                    E value = input.data[indexInput++];
                    if( value < min )
                        min = value;
                    else if( value > max )
                        max = value;
                }
            }
""", """            E min = input.at(x0,y0);
            E max = min;

            for (uint32_t y = y0; y < y0+height; y++) {
                for (uint32_t x = x0; x < x0+width; x++) {
                    const E value = input.unsafe_at(x,y);
                    min = value < min ? value : min;
                    max = value > max ? value : max;
                }
            }
"""),
 (S+"image_convert.h", """                sum_type sum = 0;

                for( uint32_t band = 0; band < input.num_bands; band++ ) {
                    sum += *input_ptr++;
                }

                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
""", """                output_ptr[x] = average_bands<E,sum_type>(input_ptr, input.num_bands);
                input_ptr += input.num_bands;
"""),
 (S+"image_convert.h", """    template< typename E>
    void convert_average(""", """    template< typename E, typename S>
    E average_bands( const E* pixel , uint32_t num_bands )
    {
        S sum = 0;
        for( const E* end = pixel + num_bands; pixel < end; pixel++ )
            sum += *pixel;
        return static_cast<E>(sum/static_cast<S>(num_bands));
    }

    template< typename E>
    void convert_average("""),
]
