B = "boofcpp/src/boofcv/"
T = B + "threshold_block_filters.h"
O = B + "binary_ops.h"
C = B + "binary_ops.cpp"
M = B + "image_misc_ops.h"
S = B + "image_statistics.h"
P = B + "packed_sets.h"
LOCAL = '''            uint32_t blockX1, blockY1;
            if(this->thresholdFromLocalBlocks) {
                blockX1 = std::min(this->stats.width - 1, blockX0 + 1);
                blockY1 = std::min(this->stats.height - 1, blockY0 + 1);

                blockX0 = blockX0 > 0 ? blockX0 - 1 : 0;
                blockY0 = blockY0 > 0 ? blockY0 - 1 : 0;
            } else {
                blockX1 = blockX0;
                blockY1 = blockY0;
            }
'''
EDITS = [
    (T, LOCAL, '''            uint32_t blockX1, blockY1;
            this->localRegion(blockX0,blockX1,this->stats.width);
            this->localRegion(blockY0,blockY1,this->stats.height);
'''),
    (T, '''        bool isThresholdFromLocalBlocks() {''', '''        /** range of blocks, along one axis, which are used for a block */
        void localRegion( uint32_t& lower , uint32_t& upper , uint32_t length ) const {
            upper = lower;
            if( !thresholdFromLocalBlocks )
                return;
            if( upper + 1 < length )
                upper++;
            if( lower > 0 )
                lower--;
        }

        bool isThresholdFromLocalBlocks() {'''),
    (T, '''            // Average the mean across local blocks
            typename TypeInfo<E>::sum_type sum = 0;

            for (uint32_t y = blockY0; y <= blockY1; y++) {
                for (uint32_t x = blockX0; x <= blockX1; x++) {
                    sum += this->stats.unsafe_at(x,y,0);
                }
            }
            E mean = sum/((blockY1-blockY0+1)*(blockX1-blockX0+1));
''', '''            // Average the mean across local blocks
            typename TypeInfo<E>::sum_type sum = 0;
            uint32_t count = 0;

            for (uint32_t y = blockY0; y < blockY1+1; y++) {
                for (uint32_t x = blockX0; x < blockX1+1; x++, count++) {
                    sum += this->stats.data[this->stats.index_of(x,y,0)];
                }
            }
            const E mean = sum/count;
'''),
    (T, '''                E* ptr = &input.data[input.offset + (y0+y)*input.stride + x0];
                E* end = &ptr[width];
                while( ptr != end ) {
                    sum += *ptr++;
                }
''', '''                for (uint32_t x = 0; x < width; x++) {
                    sum += input.unsafe_at(x0+x,y0+y);
                }
'''),
    (T, '''            S32* stats_ptr = &this->stats.data[indexStats];
            for (uint32_t y = 0; y < height; y++) {''', '''            S32* const stats_ptr = this->stats.data + indexStats;
            for (uint32_t y = 0; y != height; ++y) {'''),
    (T, '''                while( input_ptr != end ) {
                    stats_ptr[U8(*input_ptr++)]++;
                }
''', '''                for( ; input_ptr != end; ++input_ptr ) {
                    const U8 bin = static_cast<U8>(*input_ptr);
                    stats_ptr[bin] += 1;
                }
'''),
    (T, '''            // this can vary across the image at the borders
            uint32_t total = 0;
            for (uint32_t i = 0; i < histogram.size; i++) {
                total += histogram[i];
            }
''', '''            // this can vary across the image at the borders
            uint32_t total = 0;
            uint32_t bin = 0;
            while( bin < histogram.size ) {
                total += histogram[bin];
                ++bin;
            }
'''),
    (T, '''                    if( localMin < min )
                        min = localMin;
                    if( localMax > max )
                        max = localMax;
''', '''                    min = std::min(min,localMin);
                    max = std::max(max,localMax);
'''),
    (T, '''                for (uint32_t i = x1-x0; i ; i-- ) {
                    if( max-min <= this->minimumSpread ) {''', '''                const bool textureless = max-min <= this->minimumSpread;
                for (uint32_t x = x0; x < x1; x++ ) {
                    if( textureless ) {'''),
    (T, '''            E min,max;
            min = max = input.at(x0,y0);
''', '''            E min = input.at(x0,y0);
            E max = min;
'''),
    (T, '''                    E value = input.data[indexInput++];
                    if( value < min )
                        min = value;
                    else if( value > max )
                        max = value;
''', '''                    const E value = input.data[indexInput + x];
                    if( value > max )
                        max = value;
                    if( value < min )
                        min = value;
'''),
    (T, '''            uint32_t rows = height/requestedBlockWidth;
            uint32_t cols = width/requestedBlockWidth;

            blockHeight = height/rows;
            blockWidth = width/cols;
''', '''            blockWidth = width/(width/requestedBlockWidth);
            blockHeight = height/(height/requestedBlockWidth);
'''),
    (T, '''            uint32_t innerWidth = input.width%blockWidth == 0 ?
                                input.width : input.width-blockWidth-(input.width%blockWidth);
            uint32_t innerHeight = input.height%blockHeight == 0 ?
                                input.height : input.height-blockHeight-(input.height%blockHeight);

            computeStatistics(input, innerWidth, innerHeight);
''', '''            const uint32_t innerWidth = innerLength(input.width,blockWidth);
            const uint32_t innerHeight = innerLength(input.height,blockHeight);

            computeStatistics(input, innerWidth, innerHeight);
'''),
    (T, '''        /**
         * Selects a block size which is close to the requested block size by the user
         */''', '''        static uint32_t innerLength( uint32_t length , uint32_t block ) {
            const uint32_t extra = length%block;
            if( extra == 0 )
                return length;
            return length - (block + extra);
        }

        /**
         * Selects a block size which is close to the requested block size by the user
         */'''),
    (O, '''            Gray<T>& mean = storage1;

            BlurImageOps::mean(input,mean,radius,storage2);
''', '''            BlurImageOps::mean(input,storage1,radius,storage2);
            const Gray<T>& mean = storage1;
'''),
    (O, '''            auto range = static_cast<uint32_t>(1+max_value - min_value);
            GrowArray<uint32_t> histogram(range);
''', '''            const uint32_t range = static_cast<uint32_t>(max_value - min_value + 1);
            GrowArray<uint32_t> histogram(range);
'''),
    (C, '''        int end = indexA + inputA.width;
        for( ; indexA < end; indexA++,indexB++,indexOut++) {
            output.data[indexOut] = static_cast<U8>(inputA.data[indexA] && inputB.data[indexB]);
        }
''', '''        for( uint32_t x = 0; x < inputA.width; x++ ) {
            U8 both = 0;
            if( inputA.data[indexA+x] != 0 )
                both = inputB.data[indexB+x] != 0;
            output.data[indexOut+x] = both;
        }
'''),
    (C, '''static int sumNeighborhood4(const Gray<U8>& input, uint32_t x, uint32_t y) {
    int sum = input.unsafe_at(x, y);
    if (x > 0) sum += input.unsafe_at(x - 1, y);
    if (x + 1 < input.width) sum += input.unsafe_at(x + 1, y);
    if (y > 0) sum += input.unsafe_at(x, y - 1);
    if (y + 1 < input.height) sum += input.unsafe_at(x, y + 1);
    return sum;
}
''', '''static int sumNeighborhood4(const Gray<U8>& input, uint32_t x, uint32_t y) {
    const U8* p = &input.data[input.offset + y*input.stride + x];
    int sum = 0;
    sum += y == 0 ? 0 : p[-(int)input.stride];
    sum += x == 0 ? 0 : p[-1];
    sum += p[0];
    sum += x + 1 == input.width ? 0 : p[1];
    sum += y + 1 == input.height ? 0 : p[input.stride];
    return sum;
}
'''),
    (C, '''    // the image border, where at least one neighbor is outside
    for (uint32_t y = 0; y < input.height; y++) {
        const bool row = y == 0 || y + 1 == input.height;
        for (uint32_t x = 0; x < input.width; x++) {
            if (row || x == 0 || x + 1 == input.width)
                output.unsafe_at(x, y) = static_cast<U8>(sumNeighborhood4(input, x, y) == 5);
        }
    }
    if (input.width < 3 || input.height < 3)
        return;
''', '''    // the image border, where at least one neighbor is outside and the pixel can't survive
    for (uint32_t y = 0; y < input.height; y++) {
        const bool row = y == 0 || y + 1 == input.height;
        for (uint32_t x = 0; x < input.width; x++) {
            const bool column = x == 0 || x + 1 == input.width;
            if (!row && !column)
                continue;
            output.unsafe_at(x, y) = static_cast<U8>(sumNeighborhood4(input, x, y) == 5 ? 1 : 0);
        }
    }
    if (input.height <= 2 || input.width <= 2)
        return;
'''),
    (C, '''        wB += histogram[i];               // Weight Background
        if (wB == 0) continue;

        uint32_t wF = totalPixels - wB;        // Weight Foreground
        if (wF == 0) break;

        double f = i / dlength;
        sumB += f * histogram[i];

        double mB = sumB / wB;            // Mean Background
        double mF = (sum - sumB) / wF;    // Mean Foreground
''', '''        const uint32_t n = histogram[i];
        wB += n;               // Weight Background
        if (wB == 0) continue;

        const uint32_t wF = totalPixels - wB;        // Weight Foreground
        if (wF == 0) break;

        sumB += (i / dlength) * n;

        const double mF = (sum - sumB) / wF;    // Mean Foreground
        const double mB = sumB / wB;            // Mean Background
'''),
    (M, '''            if( image.subimage ) {
                for( uint32_t y = 0; y < image.height; y++ ) {
                    E *ptr = &image.data[image.offset + y*image.stride];
                    E *end = &ptr[image.width];
                    while (ptr != end) {
                        *ptr++ = value;
                    }
                }
            } else {
                E *ptr = image.data;
                E *end = &ptr[image.total_pixels()];
                while (ptr != end) {
                    *ptr++ = value;
                }
            }
''', '''            for( uint32_t y = 0; y < image.height; y++ ) {
                E *row = image.data + image.offset + y*image.stride;
                std::fill(row, row + image.width, value);
            }
'''),
    (M, '''                for (uint32_t x = 0; x < input.width; x++) {
                    input.data[indexTop++] = value;
                    input.data[indexBottom++] = value;
                }
            }
''', '''                std::fill_n(&input.data[indexTop], input.width, value);
                for (uint32_t x = 0; x < input.width; x++) {
                    input.data[indexBottom+x] = value;
                }
            }
'''),
    (M, '''            for (uint32_t x = 0; x < radius; x++) {
                uint32_t indexLeft = indexStart + x;
                uint32_t indexRight = indexStart + input.width-1-x;
                for (uint32_t y = radius; y < h; y++) {
                    input.data[indexLeft] = value;
                    input.data[indexRight] = value;

                    indexLeft += input.stride;
                    indexRight += input.stride;
                }
            }
''', '''            for (uint32_t y = radius; y < h; y++, indexStart += input.stride) {
                for (uint32_t x = 0; x < radius; x++) {
                    input.data[indexStart+x] = value;
                    input.data[indexStart+(input.width-radius)+x] = value;
                }
            }
'''),
    (S, '''                const T* ptr = &input.data[input.offset + y*input.stride];
                const T* end = &ptr[input.width];
                while( ptr != end ) {
                    const T& v = *ptr++;
                    if( v < min_value ) {
                        min_value = v;
                    }
                }
''', '''                for( uint32_t x = 0; x < input.width; x++ ) {
                    min_value = std::min(min_value, input.unsafe_at(x,y));
                }
'''),
    (S, '''                for( ; index < end; index++ ) {
                    histogram[static_cast<uint32_t>(input.data[index] - minValue)]++;
                }
''', '''                while( index < end ) {
                    const T v = input.data[index++];
                    histogram.data[static_cast<uint32_t>(v - minValue)] += 1;
                }
'''),
    (P, '''                for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                    tmp[i] = blocks[i];
                }
                tmp[_number_of_blocks] = added.release();
                delete []blocks;
                this->blocks = tmp;
                this->_number_of_blocks++;
''', '''                std::copy(blocks, blocks + _number_of_blocks, tmp);
                tmp[block] = added.release();
                std::swap(blocks, tmp);
                delete []tmp;
                this->_number_of_blocks = block+1;
'''),
    (P, '''            uint32_t b = set.block*_size_of_block + set.offset + index_element;

            return this->blocks[b / _size_of_block][b % _size_of_block];
''', '''            uint32_t column = set.offset + index_element;
            uint32_t row = set.block + column / _size_of_block;

            return this->blocks[row][column % _size_of_block];
'''),
    (P, '''            for( uint32_t i = 0; i < set.size; i++ ) {
                uint32_t b = set.block*_size_of_block + set.offset + i;
                this->blocks[b / _size_of_block][b % _size_of_block] = input[i];
            }
''', '''            uint32_t b = set.block*_size_of_block + set.offset;
            for( const T& e : input ) {
                this->blocks[b / _size_of_block][b % _size_of_block] = e;
                b++;
            }
'''),
]
