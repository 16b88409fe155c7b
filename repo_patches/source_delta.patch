From 95ef0c0e575f42d03056cbd80812d94b71fc9eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 01/26] fix: vertical mean filter compared the kernel against
 the image width instead of its height

---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index c16709c..3e53c57 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -194,7 +194,7 @@ namespace boofcv {
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-            if( kernel.width > input.width ) {
+            if( kernel.width > input.height ) {
                 ConvolveNormalized::vertical(kernel,input,output);
             } else {
                 ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
-- 
2.43.0


From 056920a073d3106e7daa31bc69fadeeaa7fbf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 02/26] fix: vertical normalized convolution truncated kernel
 coefficients to the pixel type

---
 boofcpp/src/boofcv/convolve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 0fb81e3..48deba5 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -307,7 +307,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
@@ -340,7 +340,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
-- 
2.43.0


From fcece52ddf5cfbac10e28dcd2e84ab1e277a30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 03/26] fix: image getHeight returned the width

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ddf14b8..1ca6cd3 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -44,7 +44,7 @@ namespace boofcv {
         }
 
         uint32_t getHeight() const {
-            return width;
+            return height;
         }
 
         /**
-- 
2.43.0


From 059631e64197091bed4b325411ee16fbe3b1cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 04/26] fix: image base class left the offset uninitialised

---
 boofcpp/src/boofcv/image_types.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1ca6cd3..ad6c4c5 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -28,6 +28,7 @@ namespace boofcv {
         ImageBase() {
             this->width = 0;
             this->height = 0;
+            this->offset = 0;
             this->stride = 0;
             this->subimage = false;
         }
-- 
2.43.0


From 1fc43b7d88e6bd10137e6385ff3cf4faba448768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 05/26] fix: planar image freed the band list instead of the
 bands and three of its functions did not compile

---
 boofcpp/src/boofcv/image_types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ad6c4c5..7588b0b 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -250,7 +250,7 @@ namespace boofcv {
             this->offset = 0;
             this->stride = 0;
             for( uint32_t i = 0; i < num_bands; i++ ) {
-                delete bands;
+                delete bands[i];
             }
             delete []bands;
             bands = NULL;
@@ -269,7 +269,7 @@ namespace boofcv {
         }
 
         void setNumberOfBands( uint32_t desired ) {
-            T* new_bands;
+            T** new_bands;
             if( desired > this->num_bands ) {
                 new_bands = new T*[desired];
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
@@ -294,7 +294,7 @@ namespace boofcv {
             this->num_bands = desired;
         }
 
-        T& at( uint32_t x , uint32_t y , uint32_t band ) const {
+        typename T::pixel_type& at( uint32_t x , uint32_t y , uint32_t band ) const {
             if( band >= this->num_bands )
                 throw invalid_argument("Band out of range");
 
@@ -309,7 +309,7 @@ namespace boofcv {
             }
             setNumberOfBands(src.num_bands);
             for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                this->bands[i]->setTo(src.bands[i]);
+                this->bands[i]->copy(*src.bands[i]);
             }
         }
 
-- 
2.43.0


From cb6360ddde65c190701d8aca02752532439c622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 06/26] fix: interleaved setTo copied bytes instead of elements

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 7588b0b..685fd17 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -457,7 +457,7 @@ namespace boofcv {
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,src.width*this->num_bands);
+                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
             }
         }
 
-- 
2.43.0


From a3094847d981163af804ead89bc4319f6111a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 07/26] fix: growable array wrote its fill and default values
 byte by byte and skipped elements exposed by resize

---
 boofcpp/src/boofcv/base_types.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 76c5965..aacf140 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -127,7 +127,8 @@ namespace boofcv {
                 delete []this->data;
                 this->data = new T[new_size];
                 this->array_length = new_size;
-                memset(data,default_value,new_size);
+                for( uint32_t i = 0; i < new_size; i++ )
+                    this->data[i] = default_value;
             }
             this->size = 0;
         }
@@ -143,16 +144,18 @@ namespace boofcv {
             if( new_size > array_length ) {
                 auto *tmp = new T[new_size];
                 memmove(tmp,this->data,sizeof(T)*this->size);
-                memset(&tmp[this->size],default_value,sizeof(T)*(new_size-this->size));
                 delete []this->data;
                 this->data = tmp;
                 this->array_length = new_size;
             }
+            for( uint32_t i = this->size; i < new_size; i++ )
+                this->data[i] = default_value;
             this->size = new_size;
         }
 
         void fill( T value ) {
-            std::memset(this->data,value,this->size*sizeof(T));
+            for( uint32_t i = 0; i < this->size; i++ )
+                this->data[i] = value;
         }
 
         T& at( uint32_t index ) const {
-- 
2.43.0


From 9e14c3f3612d961ab108a8eed9cc74e7d65ad303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 08/26] fix: fill functions ignored the offset and stride of
 sub-images

---
 boofcpp/src/boofcv/image_misc_ops.h | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 5927518..e2cdf23 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -60,10 +60,12 @@ namespace boofcv {
 
         template<class E>
         static void fill( Interleaved<E>& image , E value ) {
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()*image.num_bands];
-            while( ptr != end ) {
-                *ptr++ = value;
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width*image.num_bands];
+                while( ptr != end ) {
+                    *ptr++ = value;
+                }
             }
         }
 
@@ -80,10 +82,12 @@ namespace boofcv {
 
             std::uniform_int_distribution<E> dis(min_value, max_value-1);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
 
@@ -91,10 +95,12 @@ namespace boofcv {
         static void fill_uniform( Gray<E>& image , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
             std::uniform_real_distribution<E> dis(min_value, max_value);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
     };
-- 
2.43.0


From 35b1f1d341f167ec21325204d4eab1bde783c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 09/26] fix: image min and max ignored sub-image geometry, and
 max was wrong for negative floating point images

---
 boofcpp/src/boofcv/image_statistics.h | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 81f08ba..59686c3 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -12,12 +12,14 @@ namespace boofcv {
         static T min( const Gray<T>& input) {
             T min_value = std::numeric_limits<T>::max();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v < min_value ) {
-                    min_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v < min_value ) {
+                        min_value = v;
+                    }
                 }
             }
 
@@ -26,14 +28,16 @@ namespace boofcv {
 
         template<class T>
         static T max( const Gray<T>& input) {
-            T max_value = std::numeric_limits<T>::min();
+            T max_value = std::numeric_limits<T>::lowest();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v > max_value ) {
-                    max_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v > max_value ) {
+                        max_value = v;
+                    }
                 }
             }
 
-- 
2.43.0


From bc9e30927e34acce045d0862451c61d1c87bc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 10/26] fix: averages of signed images divided as unsigned
 numbers

---
 boofcpp/src/boofcv/image_convert.h    | 2 +-
 boofcpp/src/boofcv/image_statistics.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 8e7439e..47025e3 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -32,7 +32,7 @@ namespace boofcv {
                     sum += *input_ptr++;
                 }
 
-                *output_ptr++ = static_cast<E>(sum/input.num_bands);
+                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
             }
         }
     }
diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 59686c3..79de975 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -60,7 +60,7 @@ namespace boofcv {
         template<class T>
         static T mean( const Gray<T>& input) {
             typename TypeInfo<T>::sum_type a = sum(input);
-            return static_cast<T>(a / (input.width * input.height));
+            return static_cast<T>(a / static_cast<typename TypeInfo<T>::sum_type>(input.width * input.height));
         }
 
         template<class T>
-- 
2.43.0


From 6699078e036a8369f16600a00c01aa30450f1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 11/26] fix: block min-max threshold used the smallest positive
 float as initial maximum

---
 boofcpp/src/boofcv/threshold_block_filters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index d3d7655..08824d1 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -444,7 +444,7 @@ namespace boofcv
 
             // find the min and max pixel values inside this block region
             E min = std::numeric_limits<E>::max();
-            E max = std::numeric_limits<E>::min();
+            E max = std::numeric_limits<E>::lowest();
 
             for (uint32_t y = blockY0; y <= blockY1; y++) {
                 for (uint32_t x = blockX0; x <= blockX1; x++) {
-- 
2.43.0


From 962c27ac1a7aed0e3b77b0d888a2a7ddc2a6ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 12/26] fix: a negative minimum spread did not disable the
 texture test of the block min-max threshold

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 08824d1..3d8bf61 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -459,13 +459,12 @@ namespace boofcv
             }
 
             // apply threshold
-            auto textureThreshold = static_cast<sum_type>(this->minimumSpread);
             for (uint32_t y = y0; y < y1; y++) {
                 E* input_ptr = &input.data[input.offset + y*input.stride + x0];
                 U8* output_ptr = &output.data[output.offset + y*output.stride + x0];
 
                 for (uint32_t i = x1-x0; i ; i-- ) {
-                    if( max-min <= textureThreshold ) {
+                    if( max-min <= this->minimumSpread ) {
                         *output_ptr++ = 1;
                         input_ptr++;
                     } else {
-- 
2.43.0


From 9f9d5efec1a1c60ac122bc27e4bdc121a3a8af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 13/26] fix: 2D kernels were only normalised in their first row
 and ignored the width derived from sigma

---
 boofcpp/src/boofcv/convolve_kernels.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 122045c..db76117 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -259,7 +259,7 @@ namespace boofcv {
 
             typename Kernel1D<E>::sum_type sum = kernel.sum();
 
-            for( uint32_t i = 0; i < kernel.width; i++ ) {
+            for( uint32_t i = 0; i < kernel.data.size; i++ ) {
                 kernel.data[i] /= sum;
             }
         }
@@ -333,6 +333,7 @@ namespace boofcv {
                                       typename std::enable_if<std::is_floating_point<E>::value>::type* = 0 )
         {
             Kernel1D<E> seed = gaussian1D<E>(sigma,width);
+            width = static_cast<int32_t>(seed.width);
             Kernel2D<E> output(width,width/2);
 
             for( int i = 0; i < width; i++ ) {
-- 
2.43.0


From f54c2a79e708d46f0fa4e620277f119b64f6eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 14/26] fix: reflected and wrapped borders read outside the
 image when more than one image size away

---
 boofcpp/src/boofcv/image_border.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index ffc2a20..309e0b2 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -98,10 +98,13 @@ namespace boofcv {
     class ImageBorderReflect : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = -x;
-            else if( x >= max_value)
-                x = max_value-2-(x-max_value);
+            const int32_t n = static_cast<int32_t>(max_value);
+            const int32_t period = n > 1 ? 2*(n-1) : 1;
+
+            // reflected as often as needed to be inside
+            x = x < 0 ? (-x)%period : x%period;
+            if( x >= n )
+                x = period-x;
         }
     };
 
@@ -112,10 +115,12 @@ namespace boofcv {
     class ImageBorderWrap : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
+            const int32_t n = static_cast<int32_t>(max_value);
+
+            // wrapped as often as needed to be inside
+            x %= n;
             if( x < 0 )
-                x = max_value+x;
-            else if( x >= max_value)
-                x = x-max_value;
+                x += n;
         }
     };
 
-- 
2.43.0


From 5039c074a13467a2b06d4bd00817e6bfa1d56d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 15/26] fix: block threshold divided by zero when the requested
 block size rounds to zero

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 3d8bf61..b016850 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -70,6 +70,9 @@ namespace boofcv
             checkSameShape(input,output);
 
             auto requestedBlockWidth = (uint32_t)this->requestedBlockWidth.computeI( std::min(input.width,input.height));
+            if( requestedBlockWidth == 0 ) {
+                throw invalid_argument("Block size must be at least one pixel");
+            }
             if( input.width < requestedBlockWidth || input.height < requestedBlockWidth ) {
                 throw invalid_argument("Image is smaller than block size");
             }
-- 
2.43.0


From d843c7d36662acb4fa09c245c56f0674b57e6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 16/26] fix: erode4 and dilate4 never wrote the border of the
 output image

---
 boofcpp/src/boofcv/binary_ops.cpp | 34 +++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 87929f8..adab27a 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -39,9 +39,32 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
     }
 }
 
+/**
+ * Sum of the pixel and its 4-neighborhood where everything outside of the image is zero
+ */
+static int sumNeighborhood4(const Gray<U8>& input, uint32_t x, uint32_t y) {
+    int sum = input.unsafe_at(x, y);
+    if (x > 0) sum += input.unsafe_at(x - 1, y);
+    if (x + 1 < input.width) sum += input.unsafe_at(x + 1, y);
+    if (y > 0) sum += input.unsafe_at(x, y - 1);
+    if (y + 1 < input.height) sum += input.unsafe_at(x, y + 1);
+    return sum;
+}
+
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // the image border, where at least one neighbor is outside
+    for (uint32_t y = 0; y < input.height; y++) {
+        const bool row = y == 0 || y + 1 == input.height;
+        for (uint32_t x = 0; x < input.width; x++) {
+            if (row || x == 0 || x + 1 == input.width)
+                output.unsafe_at(x, y) = static_cast<U8>(sumNeighborhood4(input, x, y) == 5);
+        }
+    }
+    if (input.width < 3 || input.height < 3)
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
@@ -64,6 +87,17 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // the image border, where at least one neighbor is outside
+    for (uint32_t y = 0; y < input.height; y++) {
+        const bool row = y == 0 || y + 1 == input.height;
+        for (uint32_t x = 0; x < input.width; x++) {
+            if (row || x == 0 || x + 1 == input.width)
+                output.unsafe_at(x, y) = static_cast<U8>(sumNeighborhood4(input, x, y) > 0);
+        }
+    }
+    if (input.width < 3 || input.height < 3)
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
-- 
2.43.0


From c8fd9d608ab0204ef819518f5319be12967c1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 17/26] fix: copies of images and growable arrays shared and
 freed the same memory twice

---
 boofcpp/src/boofcv/base_types.h  |  4 +++
 boofcpp/src/boofcv/image_types.h | 51 ++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index aacf140..dd7d6b1 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -97,6 +97,10 @@ namespace boofcv {
 
         }
 
+        GrowArray( const GrowArray<T>& other ) : GrowArray(other.size) {
+            *this = other;
+        }
+
         GrowArray(std::initializer_list<T> l ){
             this->size = this->array_length = (uint32_t)l.size();
             this->can_resize = true;
diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 685fd17..26b0276 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -136,6 +136,13 @@ namespace boofcv {
         Gray() : Gray(0,0) {
         }
 
+        /**
+         * A copy of a sub-image refers to the same pixels. All other copies own their pixels.
+         */
+        Gray( const Gray<T>& other ) : Gray(0,0) {
+            *this = other;
+        }
+
         ~Gray() {
             if( !this->subimage ) {
                 delete[]this->data;
@@ -202,6 +209,9 @@ namespace boofcv {
         {
             if (this != &other) { // self-assignment check expected
                 if( other.subimage ) {
+                    if( !this->subimage ) {
+                        delete[]this->data;
+                    }
                     this->data = other.data;
                     this->data_length = other.data_length;
                     this->width = other.width;
@@ -244,6 +254,18 @@ namespace boofcv {
         Planar() : Planar(0,0,0) {
         }
 
+        Planar( const Planar<T>& other ) : Planar(0,0,0) {
+            this->setTo(other);
+        }
+
+        Planar<T>& operator=(const Planar<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                this->setTo(other);
+            }
+            return *this;
+        }
+
         ~Planar() {
             this->width = 0;
             this->height = 0;
@@ -364,6 +386,35 @@ namespace boofcv {
         Interleaved() : Interleaved(0,0,0) {
         }
 
+        /**
+         * A copy of a sub-image refers to the same pixels. All other copies own their pixels.
+         */
+        Interleaved( const Interleaved<T>& other ) : Interleaved(0,0,0) {
+            *this = other;
+        }
+
+        Interleaved<T>& operator=(const Interleaved<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                if( other.subimage ) {
+                    if( !this->subimage ) {
+                        delete[]this->data;
+                    }
+                    this->data = other.data;
+                    this->data_length = other.data_length;
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->offset = other.offset;
+                    this->stride = other.stride;
+                    this->subimage = true;
+                } else {
+                    this->setTo(other);
+                }
+            }
+            return *this;
+        }
+
         ~Interleaved() {
             if( !this->subimage ) {
                 this->width = 0;
-- 
2.43.0


From fe39db51cc6ad50ebb8abab777b8251fae065937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 18/26] fix: copies of packed sets and contour tracers freed
 the same memory twice

---
 boofcpp/src/boofcv/contour.h     | 4 ++++
 boofcpp/src/boofcv/packed_sets.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/boofcpp/src/boofcv/contour.h b/boofcpp/src/boofcv/contour.h
index ca57014..2352176 100644
--- a/boofcpp/src/boofcv/contour.h
+++ b/boofcpp/src/boofcv/contour.h
@@ -65,6 +65,10 @@ namespace boofcv {
          */
         ContourTracer( ConnectRule rule );
 
+        // owns its lookup tables
+        ContourTracer( const ContourTracer& ) = delete;
+        ContourTracer& operator=( const ContourTracer& ) = delete;
+
         ~ContourTracer();
 
         /**
diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 8832050..3898177 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -59,6 +59,10 @@ namespace boofcv {
 
         PackedSet() : PackedSet(2000) {}
 
+        // owns its blocks
+        PackedSet( const PackedSet<T>& ) = delete;
+        PackedSet<T>& operator=( const PackedSet<T>& ) = delete;
+
         ~PackedSet() {
             for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                 delete []blocks[i];
-- 
2.43.0


From 2b1dc3c585910de54f9b27fcb2301b4a6ee7e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 19/26] fix: image constructor leaked its pixels when the rows
 of the list had different lengths

---
 boofcpp/src/boofcv/image_types.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 26b0276..9ed93ec 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -116,6 +116,11 @@ namespace boofcv {
             } else {
                 this->width = static_cast<uint32_t >(l.begin()->size());
             }
+            for (auto& x : l ) {
+                if( x.size() != this->width ) {
+                    throw invalid_argument("width missmatch");
+                }
+            }
             this->data = new T[this->width*this->height]();
             this->data_length = this->width*this->height;
             this->offset = 0;
@@ -124,9 +129,6 @@ namespace boofcv {
             
             T* ptr = this->data;
             for (auto& x : l ) {
-                if( x.size() != this->width ) {
-                    throw invalid_argument("width missmatch");
-                }
                 for(auto& y : x ) {
                     *ptr++ = y;
                 }
-- 
2.43.0


From 08f77e20a5b5019fc362a17244817a4d36a24cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:52 +0000
Subject: [PATCH 20/26] fix: threshold natives kept the input array pinned, and
 released the output unacquired, after an exception

---
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  | 19 +++++++++++++++----
 .../src/main/cpp/NativeBlockMinMax.cpp        | 19 +++++++++++++++----
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  | 19 +++++++++++++++----
 .../src/main/cpp/NativeGlobalFixed.cpp        | 19 +++++++++++++++----
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp | 19 +++++++++++++++----
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  | 19 +++++++++++++++----
 6 files changed, 90 insertions(+), 24 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 18ede7d..31c4886 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -62,13 +62,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -76,8 +86,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
         // TODO do something here
     }
 
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    // Release the arrays. The output is only acquired if the input was valid
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 35fe579..6d2d93d 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -63,13 +63,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -77,8 +87,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
         // TODO do something here
     }
 
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    // Release the arrays. The output is only acquired if the input was valid
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 2652302..b7b8d27 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -62,13 +62,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -76,8 +86,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
         // TODO do something here
     }
 
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    // Release the arrays. The output is only acquired if the input was valid
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 8baa758..0e84b97 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -61,13 +61,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
              output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -75,8 +85,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
         // TODO do something here
     }
 
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    // Release the arrays. The output is only acquired if the input was valid
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 1d62507..31a8254 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -58,13 +58,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -72,8 +82,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
         // TODO do something here
     }
 
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    // Release the arrays. The output is only acquired if the input was valid
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 3ba111b..92097c7 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -62,13 +62,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -76,8 +86,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
         // TODO do something here
     }
 
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    // Release the arrays. The output is only acquired if the input was valid
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 590c6ac3b85ef60dad9ba8fe6149b6dcf987fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:54 +0000
Subject: [PATCH 21/26] fix: interleaved at() accepted bands outside the image

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 9ed93ec..8a88bf8 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -472,7 +472,7 @@ namespace boofcv {
         }
 
         T& at( uint32_t x , uint32_t y , uint32_t band ) const {
-            if( x >= this->width || y >= this->height )
+            if( x >= this->width || y >= this->height || band >= this->num_bands )
                 throw invalid_argument("out of range");
             return data[this->offset + y*this->stride + x*this->num_bands + band];
         }
-- 
2.43.0


From 57f9005325a5a186ec5ba20d730e773f6fe48c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:05 +0000
Subject: [PATCH 22/26] fix: growing images and arrays freed their memory twice
 when the allocation failed

---
 boofcpp/src/boofcv/base_types.h  |  3 ++-
 boofcpp/src/boofcv/image_types.h | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index dd7d6b1..2310fbb 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -128,8 +128,9 @@ namespace boofcv {
             if( !can_resize )
                 throw std::invalid_argument("Can't resize array");
             if( new_size > array_length ) {
+                T* grown = new T[new_size];
                 delete []this->data;
-                this->data = new T[new_size];
+                this->data = grown;
                 this->array_length = new_size;
                 for( uint32_t i = 0; i < new_size; i++ )
                     this->data[i] = default_value;
diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 8a88bf8..62b2c97 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -166,8 +166,9 @@ namespace boofcv {
 
             uint32_t desired_length = width*height;
             if( desired_length > this->data_length ) {
+                T* grown = new T[desired_length]();
                 delete []this->data;
-                this->data = new T[desired_length]();
+                this->data = grown;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -442,8 +443,9 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                T* grown = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = grown;
                 this->data_length = new_length;
             }
 
@@ -462,8 +464,9 @@ namespace boofcv {
 
             uint32_t desired_length = width*height*this->num_bands;
             if( desired_length > this->data_length ) {
+                T* grown = new T[desired_length]();
                 delete []data;
-                this->data = new T[desired_length]();
+                this->data = grown;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -493,8 +496,9 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                T* grown = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = grown;
                 this->data_length = new_length;
             }
             this->num_bands = desired;
-- 
2.43.0


From 44b986aa64e484d65d0486c75df8a87df1f71762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 23/26] fix: PackedSet frees its blocks when an allocation
 fails

---
 boofcpp/src/boofcv/packed_sets.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 3898177..2fefd6f 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -2,6 +2,7 @@
 #define BOOFCPP_PACKED_SETS_H
 
 #include <cstdint>
+#include <memory>
 #include <stdexcept>
 #include <vector>
 
@@ -51,9 +52,17 @@ namespace boofcv {
         PackedSet( uint32_t size_of_block ) :
                 _size_of_block(size_of_block) ,_number_of_blocks(1), _total_element(0)
         {
-            blocks = new T*[_number_of_blocks];
-            for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
-                blocks[i] = new T[_size_of_block];
+            blocks = new T*[_number_of_blocks]();
+            try {
+                for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
+                    blocks[i] = new T[_size_of_block];
+                }
+            } catch( ... ) {
+                for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
+                    delete []blocks[i];
+                }
+                delete []blocks;
+                throw;
             }
         }
 
@@ -122,11 +131,12 @@ namespace boofcv {
         void _add_element( const T& element ) {
             uint32_t block = _total_element/_size_of_block;
             if( block == _number_of_blocks ) {
+                std::unique_ptr<T[]> added(new T[_size_of_block]);
                 T** tmp = new T*[block+1];
                 for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                     tmp[i] = blocks[i];
                 }
-                tmp[_number_of_blocks] = new T[_size_of_block];
+                tmp[_number_of_blocks] = added.release();
                 delete []blocks;
                 this->blocks = tmp;
                 this->_number_of_blocks++;
-- 
2.43.0


From 23e2ae7745f52e5459318f178cd2713b4c9b3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 24/26] fix: Planar frees its bands when creating one of them
 fails

---
 boofcpp/src/boofcv/image_types.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 62b2c97..21b956f 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -248,9 +248,17 @@ namespace boofcv {
             this->subimage = false;
 
             this->num_bands = num_bands;
-            bands = new T*[this->num_bands];
-            for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                bands[i] = new T(width,height);
+            bands = new T*[this->num_bands]();
+            try {
+                for( uint32_t i = 0; i < this->num_bands; i++ ) {
+                    bands[i] = new T(width,height);
+                }
+            } catch( ... ) {
+                for( uint32_t i = 0; i < this->num_bands; i++ ) {
+                    delete bands[i];
+                }
+                delete []bands;
+                throw;
             }
         }
 
@@ -296,12 +304,20 @@ namespace boofcv {
         void setNumberOfBands( uint32_t desired ) {
             T** new_bands;
             if( desired > this->num_bands ) {
-                new_bands = new T*[desired];
+                new_bands = new T*[desired]();
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
                     new_bands[i] = this->bands[i];
                 }
-                for( uint32_t i = num_bands; i < desired; i++ ) {
-                    new_bands[i] = new T(this->width,this->height);
+                try {
+                    for( uint32_t i = num_bands; i < desired; i++ ) {
+                        new_bands[i] = new T(this->width,this->height);
+                    }
+                } catch( ... ) {
+                    for( uint32_t i = num_bands; i < desired; i++ ) {
+                        delete new_bands[i];
+                    }
+                    delete []new_bands;
+                    throw;
                 }
             } else if( desired < this->num_bands ) {
                 new_bands = new T*[desired];
-- 
2.43.0


From f2239dfb2f97c3098a0f905167f59e794a29da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 25/26] fix: ContourTracer frees its tables when construction
 fails

---
 boofcpp/src/boofcv/contour.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/boofcpp/src/boofcv/contour.cpp b/boofcpp/src/boofcv/contour.cpp
index caa447d..4f8238b 100644
--- a/boofcpp/src/boofcv/contour.cpp
+++ b/boofcpp/src/boofcv/contour.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <memory>
 #include <stdexcept>
 #include "contour.h"
 
@@ -13,24 +14,27 @@ ContourTracer::ContourTracer(ConnectRule rule) :
         storagePoints(nullptr), binary(nullptr), labeled(nullptr) {
     this->rule = rule;
 
+    std::unique_ptr<uint32_t[]> directions;
     if (ConnectRule::EIGHT == rule) {
         // start the next search +2 away from the square it came from
         // the square it came from is the opposite from the previous 'dir'
-        nextDirection = new uint32_t[8];
+        directions.reset(new uint32_t[8]);
         for (uint32_t i = 0; i < 8; i++)
-            nextDirection[i] = ((i + 4) % 8 + 2) % 8;
+            directions[i] = ((i + 4) % 8 + 2) % 8;
         ruleN = 8;
     } else if (ConnectRule::FOUR == rule) {
-        nextDirection = new uint32_t[4];
+        directions.reset(new uint32_t[4]);
         for (uint32_t i = 0; i < 4; i++)
-            nextDirection[i] = ((i + 2) % 4 + 1) % 4;
+            directions[i] = ((i + 2) % 4 + 1) % 4;
         ruleN = 4;
     } else {
         throw std::invalid_argument("Connectivity rule must be 4 or 8");
     }
 
-    offsetsBinary = new int32_t[ruleN];
+    std::unique_ptr<int32_t[]> binaryOffsets(new int32_t[ruleN]);
     offsetsLabeled = new int32_t[ruleN];
+    offsetsBinary = binaryOffsets.release();
+    nextDirection = directions.release();
 }
 
 ContourTracer::~ContourTracer() {
-- 
2.43.0


From 907abf599939627f0504a4b45afc8b1a4e45b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:42 +0000
Subject: [PATCH 26/26] fix: global Otsu threshold ignored the minimum pixel
 value

---
 boofcpp/src/boofcv/binary_ops.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 5ecf40d..5bc4ed7 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -106,10 +106,10 @@ namespace boofcv
          * @param min_value The minimum value of a pixel in the image.  (inclusive)
          * @param max_value The maximum value of a pixel in the image.  (inclusive)
          * @param otsu2 False for standard Otsu. True for the variant described in ComputeOtsu
-         * @return Selected threshold.
+         * @return Selected threshold as a pixel value.
          */
         template<class T>
-        static uint32_t computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
+        static T computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
 
             auto range = static_cast<uint32_t>(1+max_value - min_value);
             GrowArray<uint32_t> histogram(range);
@@ -119,7 +119,8 @@ namespace boofcv
             // this should configure so that all the really fancy stuff has been turned off
             ComputeOtsu otsu(otsu2,0,true,1.0);
             otsu.compute(histogram, input.total_pixels());
-            return (uint32_t)otsu.threshold;
+            // the histogram starts at min_value
+            return static_cast<T>(otsu.threshold + min_value);
         }
 
         /**
-- 
2.43.0

