T = "boofcpp/src/boofcv/image_types.h"
B = "boofcpp/src/boofcv/base_types.h"
EDITS = [
 # helper for the index, used by both accessors
 (T, '''        T& at( uint32_t x , uint32_t y ) const {
            if( x >= this->width || y >= this->height )
                throw invalid_argument("out of range");
            return data[this->offset + y*this->stride + x];
        }

        T& unsafe_at( uint32_t x , uint32_t y ) const {
            return data[this->offset + y*this->stride + x];
        }
''', '''        T& at( uint32_t x , uint32_t y ) const {
            if( !this->isInBounds(x,y) )
                throw invalid_argument("out of range");
            return unsafe_at(x,y);
        }

        T& unsafe_at( uint32_t x , uint32_t y ) const {
            return data[index_of(x,y)];
        }
'''),
 (T, '''            uint32_t desired_length = width*height;
            if( desired_length > this->data_length ) {
                T* grown = new T[desired_length]();
                delete []this->data;
                this->data = grown;
                this->data_length = desired_length;
            }
            this->width = width;
            this->height = height;
            this->stride = width;
        }
''', '''            growTo(width*height);
            this->stride = width;
            this->height = height;
            this->width = width;
        }

        void growTo( uint32_t desired_length ) {
            if( desired_length <= this->data_length )
                return;
            T* old = this->data;
            this->data = new T[desired_length]();
            this->data_length = desired_length;
            delete []old;
        }
'''),
 (T, '''            for( uint32_t y = 0; y < this->height; y++ ) {
                std::memcpy(&this->data[this->offset+y*this->stride],&src.data[src.offset+y*src.stride], sizeof(T)*src.width);
            }
''', '''            T* dst_row = this->data + this->offset;
            const T* src_row = src.data + src.offset;
            for( uint32_t y = 0; y < this->height; y++, dst_row += this->stride, src_row += src.stride ) {
                for( uint32_t x = 0; x < this->width; x++ ) {
                    dst_row[x] = src_row[x];
                }
            }
'''),
 (T, '''            if( x1 > this->width || y1 > this->height || x1 < x0 || y1 < y0 )
                throw invalid_argument("Bounds are illegal");
            return Gray<T>(this->data,this->data_length,x1-x0,y1-y0,this->offset + y0*this->stride+x0, this->stride );
''', '''            if( x1 < x0 || y1 < y0 )
                throw invalid_argument("Bounds are illegal");
            if( this->width < x1 || this->height < y1 )
                throw invalid_argument("Bounds are illegal");
            const uint32_t w = x1-x0, h = y1-y0;
            const uint32_t start = index_of(x0,y0);
            return Gray<T>(this->data,this->data_length,w,h,start, this->stride );
'''),
 (T, '''            if( !this->subimage ) {
                delete[]this->data;
            }
            this->width = 0;
            this->height = 0;
            this->data_length = 0;
            this->offset = 0;
            this->stride = 0;
            this->data = NULL;
''', '''            this->width = 0;
            this->height = 0;
            this->data_length = 0;
            this->offset = 0;
            this->stride = 0;
            if( this->subimage == false ) {
                delete[]this->data;
            }
            this->data = nullptr;
'''),
 (T, '''            for( uint32_t i = 0; i < num_bands; i++ ) {
                bands[i]->reshape(width,height);
            }
            this->width = width;
            this->height = height;
            this->stride = width;
''', '''            T** ptr = bands;
            T** end = bands + num_bands;
            while( ptr != end ) {
                (*ptr++)->reshape(width,height);
            }
            this->width = width;
            this->stride = width;
            this->height = height;
'''),
 (T, '''            this->num_bands = desired;
            this->stride = this->width*desired;
''', '''            this->stride = this->width*desired;
            this->num_bands = desired;
'''),
 (T, '''            uint32_t desired_length = width*height*this->num_bands;
            if( desired_length > this->data_length ) {
                T* grown = new T[desired_length]();
                delete []data;
                this->data = grown;
                this->data_length = desired_length;
            }
            this->width = width;
            this->height = height;
            this->stride = width*this->num_bands;
''', '''            this->reshape(width,height,this->num_bands);
'''),
 (T, '''            for( uint32_t y = 0; y < this->height; y++ ) {
                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
            }
''', '''            const uint32_t row_length = src.width*this->num_bands;
            for( uint32_t y = 0; y < src.height; y++ ) {
                const T* src_ptr = &src.data[src.index_of(0,y,0)];
                T* dst_ptr = &this->data[this->index_of(0,y,0)];
                std::copy(src_ptr, src_ptr + row_length, dst_ptr);
            }
'''),
 (B, '''                T* grown = new T[new_size];
                delete []this->data;
                this->data = grown;
                this->array_length = new_size;
                for( uint32_t i = 0; i < new_size; i++ )
                    this->data[i] = default_value;
            }
            this->size = 0;
''', '''                T* grown = new T[new_size];
                for( uint32_t i = 0; i < new_size; i++ )
                    grown[i] = default_value;
                delete []this->data;
                this->data = grown;
                this->array_length = new_size;
            }
            this->size = 0;
'''),
 (B, '''            if( new_size > array_length ) {
                auto *tmp = new T[new_size];
                memmove(tmp,this->data,sizeof(T)*this->size);
                delete []this->data;
                this->data = tmp;
                this->array_length = new_size;
            }
            for( uint32_t i = this->size; i < new_size; i++ )
                this->data[i] = default_value;
            this->size = new_size;
''', '''            const uint32_t old_size = this->size;
            if( array_length < new_size ) {
                T *tmp = new T[new_size];
                for( uint32_t i = 0; i < old_size; i++ )
                    tmp[i] = this->data[i];
                std::swap(tmp,this->data);
                delete []tmp;
                this->array_length = new_size;
            }
            this->size = new_size;
            for( uint32_t i = old_size; i < new_size; ++i )
                at(i) = default_value;
'''),
 (B, '''            for( uint32_t i = 0; i < this->size; i++ )
                this->data[i] = value;
''', '''            std::fill(this->data, this->data + this->size, value);
'''),
 (B, '''            T* ptr = this->data;
            for (auto& x : l ) {
                *ptr++ = x;
            }
        }

        void set(''', '''            uint32_t index = 0;
            for (auto it = l.begin(); it != l.end(); ++it ) {
                this->data[index++] = *it;
            }
        }

        void set('''),
]
