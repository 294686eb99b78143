From 0353d82423604b97f20047982c4dc47adf1a0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 01/52] fix: report an error when a weights or reference data
 file cannot be opened

The readers passed the null stream to fclose() and, where that did not
crash, reported success without having read anything.
---
 pico-cnn/io/read_binary_reference_data.cpp | 6 ++++++
 pico-cnn/io/read_binary_weights.cpp        | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 125fe60..759b42f 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -131,6 +131,9 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR opening file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
@@ -229,6 +232,9 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR opening file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 4f253b5..2e0df7b 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -382,6 +382,9 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         }
         PRINT_DEBUG(end_marker)
 
+    } else {
+        PRINT_ERROR("ERROR opening file: " << path_to_weights_file)
+        return 1;
     }
     fclose(binary_file);
     return 0;
-- 
2.43.0


From c41bf7b40e47cc392e2c44377ef09a15f612b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 02/52] fix: release buffers with delete[] and close the file
 when reading binary data fails

The error paths of the weights and reference data readers released memory
from new[] with free(), and one of them left the file open.
---
 pico-cnn/io/read_binary_reference_data.cpp |  5 +++--
 pico-cnn/io/read_binary_weights.cpp        | 18 +++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 759b42f..98bf140 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -102,7 +102,8 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
 
             if(numbers_read != height*width) {
                 PRINT_ERROR("ERROR reading data. numbers_read = " << numbers_read)
-                free(values);
+                delete[] values;
+                fclose(binary_file);
                 return 1;
             } else {
                 #ifdef DEBUG
@@ -202,7 +203,7 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
 
         if(fread((void*)values, sizeof(float), num_outputs, binary_file) != num_outputs) {
             PRINT_ERROR("ERROR reading output values.")
-            free(values);
+            delete[] values;
             fclose(binary_file);
             return 1;
         }
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 2e0df7b..376529e 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -125,7 +125,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         for (uint32_t in_ch = 0; in_ch < num_input_channels; in_ch++) {
                             if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                                 PRINT_ERROR("ERROR while reading kernel values.")
-                                free(values);
+                                delete[] values;
                                 fclose(binary_file);
                                 return 1;
                             }
@@ -152,7 +152,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -178,7 +178,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
                         PRINT_ERROR("ERROR while reading gamma values.")
-                        free(gamma_values);
+                        delete[] gamma_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -203,7 +203,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
                         PRINT_ERROR("ERROR while reading beta values.")
-                        free(beta_values);
+                        delete[] beta_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -228,7 +228,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
                         PRINT_ERROR("ERROR while reading mean values.")
-                        free(mean_values);
+                        delete[] mean_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -253,7 +253,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
                         PRINT_ERROR("ERROR while reading variance values.")
-                        free(variance_values);
+                        delete[] variance_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -299,7 +299,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
-                        free(values);
+                        delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -323,7 +323,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -347,7 +347,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
-- 
2.43.0


From c2c29a64d5b5fd978c946780bbe9cd925f1ec411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 03/52] fix: keep long names in a weights file from overflowing
 the name buffers

---
 pico-cnn/io/read_binary_weights.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 376529e..1d2384d 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -33,9 +33,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 fclose(binary_file);
                 return 1;
             }
-            buffer[i] = c;
+            if(i < sizeof(buffer)) {
+                buffer[i] = c;
+            }
         }
-        buffer[i-1] = '\0'; //terminate string correctly
+        buffer[MIN(i, sizeof(buffer))-1] = '\0'; //terminate string correctly
 
         PRINT_DEBUG(buffer)
 
@@ -67,9 +69,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                buffer[i] = c;
+                if(i < sizeof(buffer)) {
+                    buffer[i] = c;
+                }
             }
-            buffer[i-1] = '\0'; //terminate string correctly
+            buffer[MIN(i, sizeof(buffer))-1] = '\0'; //terminate string correctly
 
             // Read layer type
             char buffer_layer_type[100];
@@ -81,9 +85,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                buffer_layer_type[i] = c;
+                if(i < sizeof(buffer_layer_type)) {
+                    buffer_layer_type[i] = c;
+                }
             }
-            buffer_layer_type[i-1] = '\0'; //terminate string correctly
+            buffer_layer_type[MIN(i, sizeof(buffer_layer_type))-1] = '\0'; //terminate string correctly
 
             PRINT_DEBUG("Layer " << layer << ": " << buffer << " of type: " << buffer_layer_type)
 
-- 
2.43.0


From 3facc9e569779fdf33a61b90bdf91c8be2f8f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 04/52] fix: accept Gemm, MatMul and Transpose layers whose
 weights are shared

The importer stores a parameter that an earlier layer already stored with
zero dimensions. The reader handled that for Conv only and ended the whole
process for the other layer types.
---
 pico-cnn/io/read_binary_weights.cpp | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 1d2384d..c9128e0 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -296,25 +296,28 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                 PRINT_DEBUG("Num kernels: " << num_kernels << ", height: " << kernel_height << ", width: " << kernel_width << ", kernel_idx: " << kernel_idx)
 
-                uint32_t kernel;
-                auto *values = new fp_t[kernel_height*kernel_width]();
+                // A kernel shared with an earlier layer is stored with zero dimensions
+                if(num_kernels != 0 && kernel_height != 0 && kernel_width != 0) {
+                    uint32_t kernel;
+                    auto *values = new fp_t[kernel_height*kernel_width]();
 
-                if(num_kernels != 1)
-                    PRINT_ERROR_AND_DIE("Number of kernels != 1")
+                    if(num_kernels != 1)
+                        PRINT_ERROR_AND_DIE("Number of kernels != 1")
 
-                for(kernel = 0; kernel < num_kernels; kernel++) {
-                    if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
-                        PRINT_ERROR("ERROR while reading kernel values.")
-                        delete[] values;
-                        fclose(binary_file);
-                        return 1;
+                    for(kernel = 0; kernel < num_kernels; kernel++) {
+                        if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
+                            PRINT_ERROR("ERROR while reading kernel values.")
+                            delete[] values;
+                            fclose(binary_file);
+                            return 1;
+                        }
+                        std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, kernel), values, kernel_height*kernel_width*sizeof(fp_t));
                     }
-                    std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, kernel), values, kernel_height*kernel_width*sizeof(fp_t));
-                }
 
-                kernel_idx++;
+                    kernel_idx++;
 
-                delete[] values;
+                    delete[] values;
+                }
 
                 uint32_t num_biases = 0;
                 if(fread((void *) &num_biases, sizeof(num_biases), 1, binary_file) != 1) {
-- 
2.43.0


From 092444d4b5abc9ea18482060748646046b5e3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 05/52] fix: refuse a weights file whose dimensions do not
 match the network

Stored dimensions and counts were used unchecked to copy into the tensors
of the network, so a damaged or stale file wrote beyond them. The parameter
arrays of a generated network now end with a nullptr, which lets the reader
refuse a file with more parameters than the network has.
---
 onnx_import/backend.py              |  7 +--
 pico-cnn/io/read_binary_weights.cpp | 72 +++++++++++++++++++++++++++--
 2 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 7625688..fd10355 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -318,9 +318,10 @@ class BackendRep(backend_base.BackendRep):
                         else:
                             num_kernels += 1
 
-        """The arrays kernels and biases will be used to pass only two variables to read_binary_weights"""
-        constructor_code += "    kernels = new pico_cnn::naive::Tensor*[{}]();\n".format(num_kernels)
-        constructor_code += "    biases = new pico_cnn::naive::Tensor*[{}]();\n\n".format(num_biases)
+        """The arrays kernels and biases will be used to pass only two variables to read_binary_weights.
+        Both end with a nullptr, so that read_binary_weights can refuse a file with more parameters."""
+        constructor_code += "    kernels = new pico_cnn::naive::Tensor*[{}]();\n".format(num_kernels + 1)
+        constructor_code += "    biases = new pico_cnn::naive::Tensor*[{}]();\n\n".format(num_biases + 1)
 
         pos = -1
         pos_kernel = -1
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index c9128e0..1f82fb1 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -1,5 +1,29 @@
 #include "read_binary_weights.h"
 
+// The tensor a parameter is loaded into has to exist (the arrays of a generated network
+// end with a nullptr) and has to have exactly the stored dimensions.
+static bool kernel_matches(const pico_cnn::naive::Tensor *kernel, uint32_t num_output_channels,
+                           uint32_t num_input_channels, uint32_t height, uint32_t width) {
+    if(kernel == nullptr) {
+        return false;
+    }
+    if(kernel->num_dimensions() == 4) {
+        return kernel->num_batches() == num_output_channels && kernel->num_channels() == num_input_channels &&
+               kernel->height() == height && kernel->width() == width;
+    }
+    return kernel->num_dimensions() == 3 && kernel->num_batches() == num_output_channels &&
+           kernel->num_channels() == num_input_channels && height == 1 && kernel->width() == width;
+}
+
+static bool matrix_matches(const pico_cnn::naive::Tensor *matrix, uint32_t num_kernels, uint32_t height, uint32_t width) {
+    return matrix != nullptr && matrix->num_dimensions() == 2 && num_kernels == 1 &&
+           matrix->height() == height && matrix->width() == width;
+}
+
+static bool bias_matches(const pico_cnn::naive::Tensor *bias, uint32_t num_values) {
+    return bias != nullptr && bias->num_elements() == num_values;
+}
+
 int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::Tensor ***kernels, pico_cnn::naive::Tensor ***biases) {
 
     FILE *binary_file;
@@ -125,6 +149,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                             kernel_width << ", kernel_idx: " << kernel_idx)
 
                 if(kernel_height != 0 && kernel_width != 0 && num_output_channels != 0 && num_input_channels != 0) {
+                    if(!kernel_matches((*kernels)[kernel_idx], num_output_channels, num_input_channels, kernel_height, kernel_width)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
                     for (uint32_t out_ch = 0; out_ch < num_output_channels; out_ch++) {
@@ -154,6 +183,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if(!bias_matches((*biases)[bias_idx], num_biases)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -180,6 +214,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of gamma values: " << num_gamma)
 
                 if(num_gamma) {
+                    if(!bias_matches((*biases)[bias_idx], num_gamma)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto* gamma_values = new fp_t[num_gamma]();
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
@@ -205,6 +244,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of beta values: " << num_beta)
 
                 if(num_beta) {
+                    if(!bias_matches((*biases)[bias_idx], num_beta)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *beta_values = new fp_t[num_beta]();
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
@@ -230,6 +274,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of mean values: " << num_mean)
 
                 if(num_mean) {
+                    if(!bias_matches((*biases)[bias_idx], num_mean)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *mean_values = new fp_t[num_mean]();
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
@@ -255,6 +304,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of variance values: " << num_variance)
 
                 if(num_variance) {
+                    if(!bias_matches((*biases)[bias_idx], num_variance)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *variance_values = new fp_t[num_variance]();
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
@@ -298,12 +352,14 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                 // A kernel shared with an earlier layer is stored with zero dimensions
                 if(num_kernels != 0 && kernel_height != 0 && kernel_width != 0) {
+                    if(!matrix_matches((*kernels)[kernel_idx], num_kernels, kernel_height, kernel_width)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     uint32_t kernel;
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
-                    if(num_kernels != 1)
-                        PRINT_ERROR_AND_DIE("Number of kernels != 1")
-
                     for(kernel = 0; kernel < num_kernels; kernel++) {
                         if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                             PRINT_ERROR("ERROR while reading kernel values.")
@@ -328,6 +384,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if(num_biases) {
+                    if(!bias_matches((*biases)[bias_idx], num_biases)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -352,6 +413,11 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if(!bias_matches((*biases)[bias_idx], num_biases)) {
+                        PRINT_ERROR("ERROR: Dimensions in weights file do not match the network. Layer number: " << layer)
+                        fclose(binary_file);
+                        return 1;
+                    }
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
-- 
2.43.0


From f004fcddb1d786ad6f78983a93ecf66664acbfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 06/52] fix: check every read and allocation when reading MNIST
 files

Short or failing reads were ignored, so a cut-off file yielded made-up
images and labels; stated dimensions were used unchecked for a buffer on
the stack and for allocations.
---
 pico-cnn/io/read_mnist.cpp | 79 +++++++++++++++++++++++++++++++++-----
 1 file changed, 69 insertions(+), 10 deletions(-)

diff --git a/pico-cnn/io/read_mnist.cpp b/pico-cnn/io/read_mnist.cpp
index 9e458d1..15c7dd0 100644
--- a/pico-cnn/io/read_mnist.cpp
+++ b/pico-cnn/io/read_mnist.cpp
@@ -23,7 +23,10 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
 
         uint32_t i;
 
-        fread(&magic_number, sizeof(magic_number), 1, images);
+        if(fread(&magic_number, sizeof(magic_number), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         magic_number = change_endianess(magic_number);
 
         // check magic number
@@ -32,23 +35,48 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
             return 0;
         }
 
-        fread(&num_images_provided, sizeof(num_images_provided), 1, images);
+        if(fread(&num_images_provided, sizeof(num_images_provided), 1, images) != 1 ||
+           fread(&height, sizeof(height), 1, images) != 1 ||
+           fread(&width, sizeof(width), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         num_images_provided = change_endianess(num_images_provided);
 
-        fread(&height, sizeof(height), 1, images);
         height = change_endianess(height);
 
-        fread(&width, sizeof(width), 1, images);
         width = change_endianess(width);
 
+        // refuse dimensions no image can have (row and column indices have 32 bits)
+        if(height == 0 || width == 0 || height > UINT16_MAX || width > UINT16_MAX ||
+           (uint64_t) (width+2*padding)*(height+2*padding) > UINT32_MAX) {
+            fclose(images);
+            return 0;
+        }
+
         // if there are less images in the dataset than requested reduce
         // the number of requested images to number of images provided
         if(num_images_provided < num_images) {
             num_images = num_images_provided;
         }
 
+        if(num_images == 0) {
+            fclose(images);
+            return 0;
+        }
+
         // allocate pointers for images
         *mnist_images = (fp_t**) malloc(num_images*sizeof(fp_t*));
+        // memory for the pixels of a single image as they are stored
+        uint8_t *buffer = (uint8_t*) malloc((size_t) width*height);
+
+        if(*mnist_images == nullptr || buffer == nullptr) {
+            free(buffer);
+            free(*mnist_images);
+            *mnist_images = nullptr;
+            fclose(images);
+            return 0;
+        }
 
         // start reading images
         for(i = 0; i < num_images; i++) {
@@ -57,9 +85,17 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
             (*mnist_images)[i] = (fp_t*) malloc((width+2*padding)*(height+2*padding)*sizeof(fp_t));
 
             uint32_t row, column;
-            uint8_t buffer[width*height];
             // store single image
-            fread(&buffer, 1, height*width, images);
+            if((*mnist_images)[i] == nullptr || fread(buffer, 1, (size_t) height*width, images) != (size_t) height*width) {
+                for(uint32_t k = 0; k <= i; k++) {
+                    free((*mnist_images)[k]);
+                }
+                free(buffer);
+                free(*mnist_images);
+                *mnist_images = nullptr;
+                fclose(images);
+                return 0;
+            }
 
             for(row = 0; row < height+2*padding; row++) {
                 for(column = 0; column < width+2*padding; column++) {
@@ -74,6 +110,7 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
             }
         }
 
+        free(buffer);
         fclose(images);
 
         return num_images;
@@ -93,7 +130,10 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
 
         uint32_t i;
 
-        fread(&magic_number, sizeof(magic_number), 1, labels);
+        if(fread(&magic_number, sizeof(magic_number), 1, labels) != 1) {
+            fclose(labels);
+            return 0;
+        }
         magic_number = change_endianess(magic_number);
 
         // check magic number
@@ -102,7 +142,10 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
             return 0;
         }
 
-        fread(&num_labels_provided, sizeof(num_labels_provided), 1, labels);
+        if(fread(&num_labels_provided, sizeof(num_labels_provided), 1, labels) != 1) {
+            fclose(labels);
+            return 0;
+        }
         num_labels_provided = change_endianess(num_labels_provided);
 
         // if there are less labels in the dataset than requested reduce
@@ -111,13 +154,29 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
             num_labels = num_labels_provided;
         }
 
+        if(num_labels == 0) {
+            fclose(labels);
+            return 0;
+        }
+
         // allocate pointers for all images
         *mnist_labels = (uint8_t*) malloc(num_labels*sizeof(uint8_t));
 
+        if(*mnist_labels == nullptr) {
+            fclose(labels);
+            return 0;
+        }
+
         // start reading images
         for(i = 0; i < num_labels; i++) {
-            uint8_t label = getc(labels);
-            (*mnist_labels)[i] = label;
+            int label = getc(labels);
+            if(label == EOF) {
+                free(*mnist_labels);
+                *mnist_labels = nullptr;
+                fclose(labels);
+                return 0;
+            }
+            (*mnist_labels)[i] = (uint8_t) label;
         }
 
         fclose(labels);
-- 
2.43.0


From fd681ad287d08a3d73d11db0106c48e046f4879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 07/52] fix: check header, pixels and memory when reading a PGM
 file

Nothing read from the file was checked, so cut-off pictures got made-up
pixels and damaged headers random dimensions. The white space after the
header swallowed first pixels that look like white space, comments longer
than the buffer were taken for the header, and the 16 bit loop counters
never reached the size of large pictures with padding.
---
 pico-cnn/io/read_pgm.cpp | 59 ++++++++++++++++++++++++++++++----------
 pico-cnn/io/read_pgm.h   |  1 +
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index 0e0b55c..fbca0e2 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -9,28 +9,51 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
 
         char buffer[100];
 
-        fgets(buffer, 100, pgm_file);
-
-        if(strcmp(buffer,"P5\n") != 0) {
+        if(fgets(buffer, 100, pgm_file) == nullptr || strcmp(buffer,"P5\n") != 0) {
             fclose(pgm_file);
             return 1;
         }
 
-        uint8_t max_gray_value;
-
         fp_t range = fabs(lower_bound - upper_bound);
 
-        // skip comment
-        fgets(buffer, 100, pgm_file);
-        // read dimensions
-        fscanf(pgm_file, "%hu %hu\n", width, height);
-        // read max gray value
-        fscanf(pgm_file, "%hhu\n", &max_gray_value);
+        // skip comment (of any length)
+        int character;
+        do {
+            character = fgetc(pgm_file);
+            if(character == EOF) {
+                fclose(pgm_file);
+                return 1;
+            }
+        } while(character != '\n');
 
-        (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
+        // read dimensions and max gray value, which is followed by a single white space
+        // (anything after that belongs to the pixels, even if it looks like white space)
+        uint32_t header[3];
+        for(uint32_t i = 0; i < 3; i++) {
+            char number[12];
+            if(fscanf(pgm_file, " %11[0-9]", number) != 1 || strlen(number) > 5 || !isspace(fgetc(pgm_file))) {
+                fclose(pgm_file);
+                return 1;
+            }
+            header[i] = (uint32_t) strtoul(number, nullptr, 10);
+        }
+        if(header[0] == 0 || header[1] == 0 || header[2] == 0 ||
+           header[0] > UINT16_MAX || header[1] > UINT16_MAX || header[2] > UINT8_MAX) {
+            fclose(pgm_file);
+            return 1;
+        }
+        (*width) = (uint16_t) header[0];
+        (*height) = (uint16_t) header[1];
+
+        (*image) = (fp_t*) malloc((size_t) ((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
+
+        if((*image) == nullptr) {
+            fclose(pgm_file);
+            return 1;
+        }
 
-        uint16_t row, column;
-        uint8_t pixel;
+        int64_t row, column;
+        int pixel;
 
         for(row = 0; row < (*height)+2*padding; row++) {
             for(column = 0; column < (*width)+2*padding; column++) {
@@ -39,7 +62,13 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
                 } else if(column < padding || column >= (*width)+padding) {
                     (*image)[row*((*width)+2*padding)+column] = lower_bound;
                 } else {
-                    pixel = (uint8_t) fgetc(pgm_file);
+                    pixel = fgetc(pgm_file);
+                    if(pixel == EOF) {
+                        free(*image);
+                        (*image) = nullptr;
+                        fclose(pgm_file);
+                        return 1;
+                    }
                     (*image)[row*((*width)+2*padding)+column] = (((pixel / 255.0f) * range) + lower_bound);
                 }
             }
diff --git a/pico-cnn/io/read_pgm.h b/pico-cnn/io/read_pgm.h
index 38fa366..f6d98f6 100644
--- a/pico-cnn/io/read_pgm.h
+++ b/pico-cnn/io/read_pgm.h
@@ -9,6 +9,7 @@
 #define PICO_CNN_READ_PGM_H
 
 #include "../parameters.h"
+#include <cctype>
 #include <cstdio>
 #include <cstdint>
 #include <cstdlib>
-- 
2.43.0


From 3c796571becadfad9139aa1ad86adca7311c4d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:03 +0000
Subject: [PATCH 08/52] fix: report write errors when writing float and PGM
 files

---
 pico-cnn/io/write_float.cpp | 6 +++++-
 pico-cnn/io/write_pgm.cpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/write_float.cpp b/pico-cnn/io/write_float.cpp
index eb42011..8c27cd8 100644
--- a/pico-cnn/io/write_float.cpp
+++ b/pico-cnn/io/write_float.cpp
@@ -24,7 +24,11 @@ int32_t write_float(const fp_t* image, const uint16_t height, const uint16_t wid
         }
     }
 
-    fclose(float_file);
+    // output errors (e.g. a full disk) may show up not before the file is closed
+    int32_t failed = ferror(float_file);
+    if(fclose(float_file) != 0 || failed) {
+        return 1;
+    }
 
     return 0;
 }
diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 9e2cf3a..9671e72 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -45,7 +45,11 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     }
 
 
-    fclose(pgm_file);
+    // output errors (e.g. a full disk) may show up not before the file is closed
+    int32_t failed = ferror(pgm_file);
+    if(fclose(pgm_file) != 0 || failed) {
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 1e860d755900aa2ad27c1468d6df0e15c0b56dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 09/52] fix: write PGM files correctly for all value ranges

The extreme values started at +-1000, pictures with one single value
divided by zero and large value ranges overflowed.
---
 pico-cnn/io/write_pgm.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 9671e72..87d64af 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -3,8 +3,8 @@
 int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width, const char* pgm_path) {
 
     // determine max gray value
-    fp_t max_gray_value = -1000;
-    fp_t min_gray_value = 1000;
+    fp_t max_gray_value = -INFINITY;
+    fp_t min_gray_value = INFINITY;
     uint16_t row, column;
 
     for(row = 0; row < height; row++) {
@@ -18,7 +18,8 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
         }
     }
 
-    fp_t gray_value_range = fabsf(min_gray_value - max_gray_value);
+    // the difference of two floats may be too large for a float
+    double gray_value_range = (double) max_gray_value - (double) min_gray_value;
 
     FILE* pgm_file;
     pgm_file = fopen(pgm_path, "w+");
@@ -39,7 +40,10 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     for(row = 0; row < height; row++) {
         for(column = 0; column < width; column++) {
             // normalize
-            uint8_t pixel = (uint8_t) ( ( (image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
+            uint8_t pixel = 0; // all pixels are equal
+            if(gray_value_range > 0) {
+                pixel = (uint8_t) ( ( ((double) image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
+            }
             fputc(pixel, pgm_file);
         }
     }
-- 
2.43.0


From e94eeab12300cfe69b14d0786a920e187e722264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 10/52] fix: report JPEG decoding problems through the return
 value

libjpeg's default error handler ended the process, missing and corrupt data
was reported as success with made-up pixels, the file was closed before the
decoder was finished with it, and rows of more than 65535 bytes overflowed
the row buffer.
---
 pico-cnn/io/read_jpeg.cpp | 64 +++++++++++++++++++++++++++++++++------
 pico-cnn/io/read_jpeg.h   |  1 +
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index e460bc7..f2b51e7 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -1,5 +1,31 @@
 #include "read_jpeg.h"
 
+// By default libjpeg ends the process on errors
+struct jpeg_error {
+    struct jpeg_error_mgr manager;
+    jmp_buf return_point;
+};
+
+static void jpeg_error_exit(j_common_ptr cinfo) {
+    (*cinfo->err->output_message)(cinfo);
+    longjmp(((struct jpeg_error*) cinfo->err)->return_point, 1);
+}
+
+static int32_t jpeg_failed(struct jpeg_decompress_struct *cinfo, FILE *jpeg_file, fp_t ***image) {
+    jpeg_destroy_decompress(cinfo);
+    fclose(jpeg_file);
+
+    if((*image) != nullptr) {
+        free((*image)[2]);
+        free((*image)[1]);
+        free((*image)[0]);
+        free(*image);
+        (*image) = nullptr;
+    }
+
+    return 1;
+}
+
 int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound, const fp_t upper_bound, uint16_t *height, uint16_t *width) {
 
     FILE * jpeg_file;
@@ -10,14 +36,21 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         uint8_t r,g,b;
         fp_t range = fabs(lower_bound - upper_bound);
 
-        struct jpeg_decompress_struct cinfo;
-        struct jpeg_error_mgr jerr;
+        struct jpeg_decompress_struct cinfo = {};
+        struct jpeg_error jerr;
 
         JSAMPARRAY jpeg_buffer;
-        uint16_t row_stride;
+        uint32_t row_stride;
         uint32_t pos = 0;
 
-        cinfo.err = jpeg_std_error(&jerr);
+        (*image) = nullptr;
+
+        cinfo.err = jpeg_std_error(&jerr.manager);
+        jerr.manager.error_exit = jpeg_error_exit;
+        if(setjmp(jerr.return_point)) {
+            return jpeg_failed(&cinfo, jpeg_file, image);
+        }
+
         jpeg_create_decompress(&cinfo);
         jpeg_stdio_src(&cinfo, jpeg_file);
         (void) jpeg_read_header(&cinfo, TRUE);
@@ -26,13 +59,20 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         *width = cinfo.output_width;
         *height = cinfo.output_height;
 
-        (*image) = (fp_t**) malloc(3*sizeof(fp_t*));
+        (*image) = (fp_t**) calloc(3, sizeof(fp_t*));
+        if((*image) == nullptr) {
+            return jpeg_failed(&cinfo, jpeg_file, image);
+        }
         // red
-        (*image)[2] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[2] = (fp_t*) malloc((size_t) (*height)*(*width)*sizeof(fp_t));
         // green
-        (*image)[1] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[1] = (fp_t*) malloc((size_t) (*height)*(*width)*sizeof(fp_t));
         // blue
-        (*image)[0] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[0] = (fp_t*) malloc((size_t) (*height)*(*width)*sizeof(fp_t));
+
+        if((*image)[2] == nullptr || (*image)[1] == nullptr || (*image)[0] == nullptr) {
+            return jpeg_failed(&cinfo, jpeg_file, image);
+        }
 
         row_stride = (*width) * cinfo.output_components;
         jpeg_buffer = (*cinfo.mem->alloc_sarray) ((j_common_ptr) &cinfo, JPOOL_IMAGE, row_stride, 1);
@@ -64,9 +104,15 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
                 pos++;
             }
         }
-        fclose(jpeg_file);
         (void) jpeg_finish_decompress(&cinfo);
+
+        // libjpeg only warns about missing and corrupt data and makes up the pixels
+        if(jerr.manager.num_warnings != 0) {
+            return jpeg_failed(&cinfo, jpeg_file, image);
+        }
+
         jpeg_destroy_decompress(&cinfo);
+        fclose(jpeg_file);
 
         return 0;
     }
diff --git a/pico-cnn/io/read_jpeg.h b/pico-cnn/io/read_jpeg.h
index 00bfe33..b431f07 100644
--- a/pico-cnn/io/read_jpeg.h
+++ b/pico-cnn/io/read_jpeg.h
@@ -12,6 +12,7 @@
 #define PICO_CNN_READ_JPEG_H
 
 #include "../parameters.h"
+#include <csetjmp>
 #include <cstdio>
 #include <cstdint>
 #include <cstdlib>
-- 
2.43.0


From bcf8086a06b6eebbc33d3852943f3ca395cfc4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 11/52] fix: report an error when a means file does not hold
 three complete values

---
 pico-cnn/io/read_means.cpp | 19 +++++++++++--------
 pico-cnn/io/read_means.h   |  2 ++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pico-cnn/io/read_means.cpp b/pico-cnn/io/read_means.cpp
index eb0b9f9..a6032a9 100644
--- a/pico-cnn/io/read_means.cpp
+++ b/pico-cnn/io/read_means.cpp
@@ -25,14 +25,17 @@ int32_t read_means(const char* path_to_means_file, fp_t* means) {
         //fread(means, sizeof(fp_t), 3, means_file);
 
         fp_t mean;
-        fscanf(means_file, "%a\n", &mean);
-        means[0] = mean;
-
-        fscanf(means_file, "%a\n", &mean);
-        means[1] = mean;
-
-        fscanf(means_file, "%a\n", &mean);
-        means[2] = mean;
+        for(uint32_t i = 0; i < 3; i++) {
+            // a value that is not followed by white space may have been cut off
+            char *end = nullptr;
+            if(fscanf(means_file, " %99[0-9a-fA-FxXpP.+-]", buffer) != 1 || !isspace(fgetc(means_file)) ||
+               (mean = strtof(buffer, &end), *end != '\0')) {
+                PRINT_ERROR("Failed to read mean value " << i << ".")
+                fclose(means_file);
+                return 1;
+            }
+            means[i] = mean;
+        }
 
         fclose(means_file);
 
diff --git a/pico-cnn/io/read_means.h b/pico-cnn/io/read_means.h
index bc3336f..c969f83 100644
--- a/pico-cnn/io/read_means.h
+++ b/pico-cnn/io/read_means.h
@@ -8,6 +8,8 @@
 #define PICO_CNN_READ_MEANS_H
 
 #include "../parameters.h"
+#include <cctype>
+#include <cstdio>
 #include <iostream>
 #include <cstdlib>
 #include <cstdint>
-- 
2.43.0


From d52164ae6a378d4fcc91de6686f3d664be454fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 12/52] fix: read at most num_labels labels and keep long lines
 and the last line whole

---
 pico-cnn/io/read_imagenet_labels.cpp | 50 ++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 2918d19..08a4216 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -6,18 +6,54 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
 
     if(labels_file != nullptr) {
 
-        (*imagenet_labels) = (char**) malloc(1000*sizeof(char*));
+        (*imagenet_labels) = (char**) malloc(num_labels*sizeof(char*));
 
         char buffer[255];
         int32_t i = 0;
-        int32_t label_length;
+        size_t label_length = 0;
+        char *label = nullptr;
+        bool failed = (*imagenet_labels) == nullptr;
 
-        while(fgets(buffer, 255, labels_file)) {
-            label_length = strlen(buffer);
-            (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
-            strncpy((*imagenet_labels)[i], buffer, label_length-1);
-            (*imagenet_labels)[i][label_length-1] = '\0';
+        while(!failed && i < (int64_t) num_labels && fgets(buffer, 255, labels_file)) {
+            // lines that are longer than the buffer arrive in several parts
+            size_t part_length = strlen(buffer);
+            bool complete = part_length > 0 && buffer[part_length-1] == '\n';
+            if(complete) {
+                part_length--;
+            }
+
+            char *longer_label = (char*) realloc(label, (label_length+part_length+1)*sizeof(char));
+            if(longer_label == nullptr) {
+                failed = true;
+                break;
+            }
+            label = longer_label;
+            memcpy(label+label_length, buffer, part_length);
+            label_length += part_length;
+            label[label_length] = '\0';
+
+            if(complete) {
+                (*imagenet_labels)[i] = label;
+                i++;
+                label = nullptr;
+                label_length = 0;
+            }
+        }
+
+        if(label != nullptr && feof(labels_file) && !ferror(labels_file) && !failed) {
+            // the last line does not have to end with a line end
+            (*imagenet_labels)[i] = label;
             i++;
+            label = nullptr;
+        }
+        free(label);
+
+        if(failed || i == 0) {
+            while(i > 0) {
+                free((*imagenet_labels)[--i]);
+            }
+            free(*imagenet_labels);
+            (*imagenet_labels) = nullptr;
         }
 
         fclose(labels_file);
-- 
2.43.0


From b05d72fc51e6d0a3addd7e93aec802d9c957878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 13/52] fix: read exactly the labels a validation label file
 holds

---
 .../io/read_imagenet_validation_labels.cpp    | 24 +++++++++++++++----
 pico-cnn/io/read_imagenet_validation_labels.h |  1 +
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_validation_labels.cpp b/pico-cnn/io/read_imagenet_validation_labels.cpp
index f301f95..c9603e7 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.cpp
+++ b/pico-cnn/io/read_imagenet_validation_labels.cpp
@@ -6,20 +6,36 @@ int32_t read_imagenet_validation_labels(const char* path_to_imagenet_validation_
 
     if(labels_file != nullptr) {
 
-        (*imagenet_validation_labels) = (uint32_t*) malloc((num_labels+1)*sizeof(uint32_t));
+        (*imagenet_validation_labels) = (uint32_t*) malloc(((size_t) num_labels+1)*sizeof(uint32_t));
+
+        if((*imagenet_validation_labels) == nullptr) {
+            fclose(labels_file);
+            return 0;
+        }
 
         char buffer[255];
         char label_buffer[6];
         uint32_t i = 1;
 
-        while(fgets(buffer, 255, labels_file) && i < num_labels) {
-            memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);
+        while(i <= num_labels && fgets(buffer, 255, labels_file)) {
+            // stop at the first line that is cut off or holds no label
+            if(strlen(buffer) <= FILE_NAME_LENGTH+1 || strchr(buffer, '\n') == nullptr || !isdigit((unsigned char) buffer[FILE_NAME_LENGTH+1])) {
+                break;
+            }
+            memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 5);
+            label_buffer[5] = '\0';
             (*imagenet_validation_labels)[i] = (uint32_t) atoi(label_buffer);
             i++;
         }
 
         fclose(labels_file);
-        return i;
+
+        // entries 1 to i-1 are valid
+        if(i == 1) {
+            free(*imagenet_validation_labels);
+            (*imagenet_validation_labels) = nullptr;
+        }
+        return i-1;
     }
 
     return 0;
diff --git a/pico-cnn/io/read_imagenet_validation_labels.h b/pico-cnn/io/read_imagenet_validation_labels.h
index 4e077c4..77d7c89 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.h
+++ b/pico-cnn/io/read_imagenet_validation_labels.h
@@ -7,6 +7,7 @@
 #ifndef PICO_CNN_READ_IMAGENET_VALIDATION_LABELS_H
 #define PICO_CNN_READ_IMAGENET_VALIDATION_LABELS_H
 
+#include <cctype>
 #include <cstdio>
 #include <cstdint>
 #include <cstdlib>
-- 
2.43.0


From b72864c2b10293556ba9ccb04c18a315a6f494c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 14/52] fix: release memory when a later allocation fails in
 tensors, convolution and pooling

---
 pico-cnn/layers/convolution.cpp     | 17 ++++++++++--
 pico-cnn/layers/pooling/pooling.cpp | 43 +++++++++++++++++------------
 pico-cnn/tensor.cpp                 | 18 +++++++++---
 3 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index 0994463..74f70eb 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -16,7 +16,12 @@ namespace pico_cnn {
                 padding_ = padding;
             }
 
-            stride_ = new uint32_t[2]();
+            try {
+                stride_ = new uint32_t[2]();
+            } catch (...) {
+                delete [] padding_;
+                throw;
+            }
             std::memcpy(stride_, stride, 2*sizeof(uint32_t));
 
             num_groups_ = num_groups;
@@ -58,7 +63,15 @@ namespace pico_cnn {
 
             uint32_t num_kernel_input_channel = kernel_->num_channels();
 
-            auto *tmp_tensor = new Tensor(num_batches, num_output_channels, output_height, output_width);
+            Tensor *tmp_tensor;
+            try {
+                tmp_tensor = new Tensor(num_batches, num_output_channels, output_height, output_width);
+            } catch (...) {
+                if (padding_) {
+                    delete input_tensor;
+                }
+                throw;
+            }
 
             for (uint32_t batch = 0; batch < num_batches; batch++) {
 
diff --git a/pico-cnn/layers/pooling/pooling.cpp b/pico-cnn/layers/pooling/pooling.cpp
index f9a413b..c9b15c2 100644
--- a/pico-cnn/layers/pooling/pooling.cpp
+++ b/pico-cnn/layers/pooling/pooling.cpp
@@ -3,25 +3,34 @@
 pico_cnn::naive::Pooling::Pooling(std::string name, uint32_t id, pico_cnn::op_type op, uint32_t *kernel_size,
                                   uint32_t *stride, uint32_t *padding) : Layer(name, id, op) {
 
-    if (kernel_size) {
-        kernel_size_ = new uint32_t[2]();
-        std::memcpy(kernel_size_, kernel_size, 2 * sizeof(uint32_t));
-    } else {
-        kernel_size_ = kernel_size;
-    }
+    kernel_size_ = nullptr;
+    stride_ = nullptr;
 
-    if (stride) {
-        stride_ = new uint32_t[2]();
-        std::memcpy(stride_, stride, 2 * sizeof(uint32_t));
-    } else {
-        stride_ = stride;
-    }
+    try {
+        if (kernel_size) {
+            kernel_size_ = new uint32_t[2]();
+            std::memcpy(kernel_size_, kernel_size, 2 * sizeof(uint32_t));
+        } else {
+            kernel_size_ = kernel_size;
+        }
 
-    if (padding) {
-        padding_ = new uint32_t[4]();
-        std::memcpy(padding_, padding, 4 * sizeof(uint32_t));
-    } else {
-        padding_ = padding;
+        if (stride) {
+            stride_ = new uint32_t[2]();
+            std::memcpy(stride_, stride, 2 * sizeof(uint32_t));
+        } else {
+            stride_ = stride;
+        }
+
+        if (padding) {
+            padding_ = new uint32_t[4]();
+            std::memcpy(padding_, padding, 4 * sizeof(uint32_t));
+        } else {
+            padding_ = padding;
+        }
+    } catch (...) {
+        delete [] kernel_size_;
+        delete [] stride_;
+        throw;
     }
 }
 
diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 34fc60b..40b8df4 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -3,11 +3,21 @@
 namespace pico_cnn {
     namespace naive {
 
+        // The destructor does not run when a constructor throws, so the shape has to be released here.
+        static fp_t *allocate_elements(uint32_t num_elements, uint32_t *shape) {
+            try {
+                return new fp_t [num_elements]();
+            } catch (...) {
+                delete [] shape;
+                throw;
+            }
+        }
+
         Tensor::Tensor(uint32_t x0): num_dimensions_(1) {
             shape_ = new uint32_t[num_dimensions_]();
             shape_[0] = x0;
             num_elements_ = x0;
-            data_ = new fp_t [num_elements_]();
+            data_ = allocate_elements(num_elements_, shape_);
         }
 
         Tensor::Tensor(uint32_t x0, uint32_t x1): num_dimensions_(2) {
@@ -15,7 +25,7 @@ namespace pico_cnn {
             shape_[0] = x0;
             shape_[1] = x1;
             num_elements_ = x0*x1;
-            data_ = new fp_t [num_elements_]();
+            data_ = allocate_elements(num_elements_, shape_);
         }
 
         Tensor::Tensor(uint32_t x0, uint32_t x1, uint32_t x2): num_dimensions_(3) {
@@ -24,7 +34,7 @@ namespace pico_cnn {
             shape_[1] = x1;
             shape_[2] = x2;
             num_elements_ = x0*x1*x2;
-            data_ = new fp_t [num_elements_]();
+            data_ = allocate_elements(num_elements_, shape_);
         }
 
         Tensor::Tensor(uint32_t x0, uint32_t x1, uint32_t x2, uint32_t x3): num_dimensions_(4) {
@@ -34,7 +44,7 @@ namespace pico_cnn {
             shape_[2] = x2;
             shape_[3] = x3;
             num_elements_ = x0*x1*x2*x3;
-            data_ = new fp_t [num_elements_]();
+            data_ = allocate_elements(num_elements_, shape_);
         }
 
         Tensor::~Tensor() {
-- 
2.43.0


From 070277df682a19b0126957eed17b634936e3eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 15/52] fix: close the file when memory runs out while reading
 binary data

---
 pico-cnn/io/read_binary_reference_data.cpp | 12 ++++++++++--
 pico-cnn/io/read_binary_weights.cpp        |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 98bf140..a7f4329 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -11,7 +11,7 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
     FILE *binary_file;
     binary_file = fopen(path_to_sample_data, "r");
 
-    if(binary_file != nullptr) {
+    if(binary_file != nullptr) try {
 
         // Read magic number
         char magic_number[5];
@@ -132,6 +132,10 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } catch(const std::bad_alloc &) {
+        PRINT_ERROR("ERROR: Not enough memory to read file: " << path_to_sample_data)
+        fclose(binary_file);
+        return 1;
     } else {
         PRINT_ERROR("ERROR opening file: " << path_to_sample_data)
         return 1;
@@ -151,7 +155,7 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
     FILE *binary_file;
     binary_file = fopen(path_to_sample_data, "r");
 
-    if(binary_file != nullptr) {
+    if(binary_file != nullptr) try {
 
         // Read magic number
         char magic_number[5];
@@ -233,6 +237,10 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } catch(const std::bad_alloc &) {
+        PRINT_ERROR("ERROR: Not enough memory to read file: " << path_to_sample_data)
+        fclose(binary_file);
+        return 1;
     } else {
         PRINT_ERROR("ERROR opening file: " << path_to_sample_data)
         return 1;
diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 1f82fb1..7b8e99a 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -29,7 +29,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
     FILE *binary_file;
     binary_file = fopen(path_to_weights_file, "r");
 
-    if(binary_file != 0) {
+    if(binary_file != 0) try {
 
         // Read magic number
         char magic_number[4];
@@ -457,6 +457,10 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         }
         PRINT_DEBUG(end_marker)
 
+    } catch(const std::bad_alloc &) {
+        PRINT_ERROR("ERROR: Not enough memory to read file: " << path_to_weights_file)
+        fclose(binary_file);
+        return 1;
     } else {
         PRINT_ERROR("ERROR opening file: " << path_to_weights_file)
         return 1;
-- 
2.43.0


From 513e19bc5df39a4420e44cfdfa84d6a7c7598fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:02 +0000
Subject: [PATCH 16/52] fix: consider the first column in global max pooling

---
 pico-cnn/layers/pooling/global_max_pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/pooling/global_max_pooling.cpp b/pico-cnn/layers/pooling/global_max_pooling.cpp
index 96f52f9..2a1930e 100644
--- a/pico-cnn/layers/pooling/global_max_pooling.cpp
+++ b/pico-cnn/layers/pooling/global_max_pooling.cpp
@@ -27,7 +27,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, height, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, row, col, num_channels, height, width);
 
@@ -48,7 +48,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, col, num_channels, width);
 
-- 
2.43.0


From 94e020a056b6bcc223abc41f275c457ab38c032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 17/52] fix: keep the padding out of the maximum in max pooling

---
 pico-cnn/layers/pooling/max_pooling.cpp | 3 ++-
 pico-cnn/layers/pooling/pooling.cpp     | 2 +-
 pico-cnn/layers/pooling/pooling.h       | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/pooling/max_pooling.cpp b/pico-cnn/layers/pooling/max_pooling.cpp
index 9332723..0f46e85 100644
--- a/pico-cnn/layers/pooling/max_pooling.cpp
+++ b/pico-cnn/layers/pooling/max_pooling.cpp
@@ -3,7 +3,8 @@
 pico_cnn::naive::MaxPooling::MaxPooling(std::string name, uint32_t id, pico_cnn::op_type op, uint32_t *kernel_size,
                                         uint32_t *stride, uint32_t *padding) :
                                         Pooling(name, id, op, kernel_size, stride, padding) {
-
+    // padding must never be the maximum
+    padding_value_ = -INFINITY;
 }
 
 void pico_cnn::naive::MaxPooling::pool(pico_cnn::naive::Tensor *input, pico_cnn::naive::Tensor *output) {
diff --git a/pico-cnn/layers/pooling/pooling.cpp b/pico-cnn/layers/pooling/pooling.cpp
index c9b15c2..3c22007 100644
--- a/pico-cnn/layers/pooling/pooling.cpp
+++ b/pico-cnn/layers/pooling/pooling.cpp
@@ -47,7 +47,7 @@ void pico_cnn::naive::Pooling::run(pico_cnn::naive::Tensor *input, pico_cnn::nai
         Tensor *input_tensor;
 
         if (padding_) {
-            input_tensor = input->expand_with_padding(padding_);
+            input_tensor = input->expand_with_padding(padding_, padding_value_);
         } else {
             input_tensor = input;
         }
diff --git a/pico-cnn/layers/pooling/pooling.h b/pico-cnn/layers/pooling/pooling.h
index 56b0012..097d132 100644
--- a/pico-cnn/layers/pooling/pooling.h
+++ b/pico-cnn/layers/pooling/pooling.h
@@ -25,6 +25,7 @@ namespace pico_cnn {
             uint32_t *kernel_size_;
             uint32_t *stride_;
             uint32_t *padding_;
+            fp_t padding_value_ = 0.0;
         };
     }
 }
-- 
2.43.0


From be291d8ea5bb024b26ca4af93b67dffb320e5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 18/52] fix: average pooling that excludes the padding without
 or with large padding

---
 pico-cnn/layers/pooling/average_pooling.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pico-cnn/layers/pooling/average_pooling.cpp b/pico-cnn/layers/pooling/average_pooling.cpp
index ba80c79..b66b696 100644
--- a/pico-cnn/layers/pooling/average_pooling.cpp
+++ b/pico-cnn/layers/pooling/average_pooling.cpp
@@ -28,7 +28,7 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
         output_channel_height = (height-kernel_size_[0])/stride_[0]+1;
         output_channel_width = (width-kernel_size_[1])/stride_[1]+1;
 
-        if(count_include_pad_ == 1) {
+        if(count_include_pad_ == 1 || padding_ == nullptr) {
 
             for (uint32_t batch = 0; batch < num_batches; batch++) {
                 for (uint32_t channel = 0; channel < num_channels; channel++) {
@@ -89,8 +89,8 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                             }
 
                             // center case
-                            if (output_channel_row >= padding_[0] && output_channel_row < output_channel_height - padding_[2] &&
-                                output_channel_column >= padding_[1] && output_channel_column < output_channel_width - padding_[3]) {
+                            if (output_channel_row >= padding_[0] && output_channel_row + padding_[2] < output_channel_height &&
+                                output_channel_column >= padding_[1] && output_channel_column + padding_[3] < output_channel_width) {
 
                                 output->access(batch, channel, output_channel_row, output_channel_column,
                                                num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));
@@ -137,7 +137,7 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
 
         output_channel_width = (width-kernel_size_[0])/stride_[0]+1;
 
-        if(count_include_pad_ == 1) {
+        if(count_include_pad_ == 1 || padding_ == nullptr) {
 
             for (uint32_t batch = 0; batch < num_batches; batch++) {
                 for (uint32_t channel = 0; channel < num_channels; channel++) {
@@ -187,7 +187,7 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                         }
 
                         // center case
-                        if (output_channel_column >= padding_[0] && output_channel_column < output_channel_width - padding_[1]) {
+                        if (output_channel_column >= padding_[0] && output_channel_column + padding_[1] < output_channel_width) {
 
                             output->access(batch, channel, output_channel_column,
                                            num_channels, output_width) = pixel / ((fp_t) (kernel_size_[0]));
-- 
2.43.0


From 54ce3234c454b2cb79287fc9d5d4baba3790c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 19/52] fix: softmax of very large or very small values

---
 pico-cnn/layers/activation_functions/softmax.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/activation_functions/softmax.cpp b/pico-cnn/layers/activation_functions/softmax.cpp
index b36f32d..a7dd9a3 100644
--- a/pico-cnn/layers/activation_functions/softmax.cpp
+++ b/pico-cnn/layers/activation_functions/softmax.cpp
@@ -19,12 +19,18 @@ namespace pico_cnn {
 
             uint32_t num_elements = input->num_elements();
 
+            // the exponential function over- or underflows unless the values are shifted by their maximum
+            fp_t maximum = -INFINITY;
             for(uint32_t i = 0; i < num_elements; i++) {
-                denominator += expl((long double)input->access_blob(i));
+                maximum = MAX(maximum, input->access_blob(i));
             }
 
             for(uint32_t i = 0; i < num_elements; i++) {
-                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i)) / denominator);
+                denominator += expl((long double)input->access_blob(i) - maximum);
+            }
+
+            for(uint32_t i = 0; i < num_elements; i++) {
+                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i) - maximum) / denominator);
             }
         }
     }
-- 
2.43.0


From 559c64aef12292b20458e9c41522bbf3a6a7974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 20/52] fix: fill the border with zeros too when copying with
 padding

---
 pico-cnn/tensor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 40b8df4..bc6a8fc 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -309,10 +309,8 @@ namespace pico_cnn {
             uint32_t height = this->height();
             uint32_t width = this->width();
 
-            if(initializer != 0.0) {
-                for (uint32_t i = 0; i < dest->num_elements(); i++) {
-                    dest->access_blob(i) = initializer;
-                }
+            for (uint32_t i = 0; i < dest->num_elements(); i++) {
+                dest->access_blob(i) = initializer;
             }
 
             if (dest->num_dimensions_ == 4) {
-- 
2.43.0


From d1e3ab8bdaf29a746afc1cb37cf8042cc0835dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 21/52] fix: concatenate two-dimensional data behind each other

---
 pico-cnn/tensor.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index bc6a8fc..c325c65 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -384,7 +384,22 @@ namespace pico_cnn {
         void Tensor::concatenate_from(uint32_t num_inputs, Tensor **inputs, uint32_t dimension) const {
 
             // concatenate along channels
-            if(dimension == 1) {
+            if(dimension == 1 && num_dimensions_ == 2) {
+                // the second dimension of two-dimensional data is its width
+                uint32_t output_column = 0;
+
+                for(uint32_t input_id = 0; input_id < num_inputs; input_id++) {
+                    Tensor *input = inputs[input_id];
+
+                    for(uint32_t row = 0; row < input->height(); row++) {
+                        std::memcpy(data_ + row*this->width() + output_column,
+                                    input->data_ + row*input->width(),
+                                    input->width() * sizeof(fp_t));
+                    }
+                    output_column += input->width();
+                }
+
+            } else if(dimension == 1) {
                 uint32_t output_channel_counter = 0;
 
                 for(uint32_t input_id = 0; input_id < num_inputs; input_id++){
-- 
2.43.0


From c6142d43b9afabb6f0c20036371ea201098c2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 22/52] fix: one-dimensional convolution and pooling read past
 their parameters

The layers copy two strides, two kernel sizes and four paddings, but the
generated code passed arrays of one and two elements.
---
 .../code_templates/conv/pico_cnn_conv1d_alloc.cpp      |  6 +++---
 .../code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp  | 10 +++++-----
 .../code_templates/pool/pico_cnn_max_pool1d_alloc.cpp  | 10 +++++-----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp b/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
index 6ae3194..2f1fec1 100644
--- a/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
+++ b/onnx_import/code_templates/conv/pico_cnn_conv1d_alloc.cpp
@@ -1,6 +1,6 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
     uint32_t {{identifier}}_groups = {{num_groups}};
 
     {{identifier}}_layer = new pico_cnn::naive::Convolution("{{name}}", 0, pico_cnn::op_type::Conv,
@@ -12,7 +12,7 @@
                                                    {% endif %}
                                                    {{identifier}}_padding, {{identifier}}_stride, {{identifier}}_groups);
 {% else %}
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
     uint32_t {{identifier}}_groups = {{num_groups}};
 
     {{identifier}}_layer = new pico_cnn::naive::Convolution("{{name}}", 0, pico_cnn::op_type::Conv,
diff --git a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
index b22c7bc..a38be41 100644
--- a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding, {{count_include_pad}});
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr, {{count_include_pad}});
diff --git a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
index 3b2cb05..a355caf 100644
--- a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}}, 0, 0 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding);
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}}, 1 };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}}, 1 };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr);
-- 
2.43.0


From de88401d67b5f680bf783962e0dad0844a4e63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 23/52] fix: random-input program repeated its input within one
 second

It reseeded the generator from the clock before every run, so all runs
within one second got the same input. Seeding once is enough.
---
 onnx_import/code_templates/main_program/dummy_input.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index 9d50311..baeaa7d 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -58,7 +58,7 @@ int32_t main(int32_t argc, char** argv) {
         }
 
     } else {
-        PRINT_INFO("Random input will be generated with new seed for each inference run.")
+        PRINT_INFO("Random input will be generated anew for each inference run.")
     }
 
     Network *net = new Network();
@@ -77,8 +77,6 @@ int32_t main(int32_t argc, char** argv) {
         PRINT_DEBUG("Run " << run+1 << " of " << RUNS)
 
         if(!GENERATE_ONCE) {
-            srand(time(NULL));
-
             for(uint32_t element = 0; element < input_tensor->num_elements(); element++) {
                 input_tensor->access_blob(element) = urand(LOWER_BOUND, UPPER_BOUND);
             }
-- 
2.43.0


From f8753d068faf2bfbfe84a097dd0c02105e020083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 24/52] fix: random-input program took any text for a number of
 runs

A negative number of runs ran billions of inferences, other text none
with exit status 0. Refuse both like a wrong number of arguments.
---
 .../code_templates/main_program/dummy_input.cpp     | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index baeaa7d..a1ca792 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -27,9 +27,18 @@ int32_t main(int32_t argc, char** argv) {
     char weights_path[1024];
     strcpy(weights_path, argv[1]);
 
-    int32_t RUNS = atoi(argv[2]);
+    char *end_runs, *end_once;
+    long runs = strtol(argv[2], &end_runs, 10);
+    long generate_once = strtol(argv[3], &end_once, 10);
 
-    int32_t GENERATE_ONCE = atoi(argv[3]);
+    if(end_runs == argv[2] || *end_runs || end_once == argv[3] || *end_once || runs < 0 || runs > INT32_MAX) {
+        usage();
+        return 1;
+    }
+
+    int32_t RUNS = runs;
+
+    int32_t GENERATE_ONCE = generate_once != 0;
 
     {% if num_input_dims == 4 %}
     auto input_tensor = new pico_cnn::naive::Tensor({{num_input_batches}}, {{num_input_channels}}, {{input_channel_height}}, {{input_channel_width}});
-- 
2.43.0


From fcb3f00cc292a0805b6f264f6b480c84c13ade61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 25/52] fix: long paths overran buffers in the generated
 programs

---
 onnx_import/code_templates/main_program/dummy_input.cpp  | 3 +--
 .../code_templates/main_program/reference_input.cpp      | 9 +++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index a1ca792..5d680cb 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -24,8 +24,7 @@ int32_t main(int32_t argc, char** argv) {
 
     std::srand(std::time(0));
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
     char *end_runs, *end_once;
     long runs = strtol(argv[2], &end_runs, 10);
diff --git a/onnx_import/code_templates/main_program/reference_input.cpp b/onnx_import/code_templates/main_program/reference_input.cpp
index 1a6bfa6..45289f0 100644
--- a/onnx_import/code_templates/main_program/reference_input.cpp
+++ b/onnx_import/code_templates/main_program/reference_input.cpp
@@ -20,14 +20,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
-    char sample_input_path[1024];
-    strcpy(sample_input_path, argv[2]);
+    const char *sample_input_path = argv[2];
 
-    char sample_output_path[1024];
-    strcpy(sample_output_path, argv[3]);
+    const char *sample_output_path = argv[3];
 
     {% if num_input_dims == 4 %}
     auto input_tensor = new pico_cnn::naive::Tensor({{num_input_batches}}, {{num_input_channels}}, {{input_channel_height}}, {{input_channel_width}});
-- 
2.43.0


From c52e86f45724e9fb814fda2cc8b2470904413f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 26/52] fix: Gemm with a layout that is not supported was
 imported all the same

The check of transA and transB looked for misspelled attributes, so
that such a layer computed wrong values or went past its weights.
---
 onnx_import/pico_cnn.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2732484..e58fd07 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -224,14 +224,12 @@ class FullyConnected(BaseLayer):
             if node.attrs['beta'] != 1.0:
                 print("ERROR: Generation of Gemm layer aborted: beta = {}".format(node.attrs['beta']))
                 return None
-        if 'tranA' in node.attrs:
-            if node.attrs['transA'] != 0:
-                print("ERROR: Generation of Gemm layer aborted: tranA = {}".format(node.attrs['tranA']))
-                return None
-        if 'tranB' in node.attrs:
-            if node.attrs['transB'] != 1:
-                print("ERROR: Generation of Gemm layer aborted: tranB = {}".format(node.attrs['tranB']))
-                return None
+        if node.attrs.get('transA', 0) != 0:
+            print("ERROR: Generation of Gemm layer aborted: transA = {}".format(node.attrs['transA']))
+            return None
+        if node.attrs.get('transB', 0) != 1:
+            print("ERROR: Generation of Gemm layer aborted: transB = {}".format(node.attrs.get('transB', 0)))
+            return None
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
-- 
2.43.0


From 2954e35d61def85b946f0113608e71fc5a386a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 27/52] fix: average pooling with a kernel of width 1 and no
 pads failed to import

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index e58fd07..4103e5e 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -653,7 +653,7 @@ class AveragePool1D(BaseLayer):
 
         kernel_stride = attrs["strides"]
 
-        padding = attrs["pads"]
+        padding = attrs.get("pads", (0, 0))
         padding_needed = False
         for num in padding:
             if num != 0:
-- 
2.43.0


From 8b900fc38bc54ad07efb080f607b290355ecea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 28/52] fix: Mul with a one-element tensor generated code that
 does not compile

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 4103e5e..14cb7b6 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -566,7 +566,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor
+        operation.attributes['factor'] = factor.item()
 
         return operation
 
-- 
2.43.0


From 36284cd3cf8d88c270f7080c5ad6b7a6965181b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 29/52] fix: refusing a Pad operation failed with an
 AttributeError

---
 onnx_import/pico_cnn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 14cb7b6..92837e9 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1178,16 +1178,16 @@ class Pad(BaseLayer):
         value = attrs['value']
 
         if mode != 'constant':
-            print("ERROR: Pad layer only supported in mode constant (not: {}).").format(mode)
+            print("ERROR: Pad layer only supported in mode constant (not: {}).".format(mode))
             exit(1)
 
         if len(input_shape) == 4:
             if pads[0] != 0 or pads[1] != 0 or pads[4] != 0 or pads[5] != 0:
-                print("ERROR: Padding only supported for height and width dimension. pads = {}").format(pads)
+                print("ERROR: Padding only supported for height and width dimension. pads = {}".format(pads))
                 exit(1)
         elif len(input_shape) == 3:
             if pads[0] != 0 or pads[1] != 0 or pads[3] != 0 or pads[4] != 0:
-                print("ERROR: Padding only supported for height and width dimension. pads = {}").format(pads)
+                print("ERROR: Padding only supported for height and width dimension. pads = {}".format(pads))
                 exit(1)
         elif len(input_shape) == 2:
             pass
-- 
2.43.0


From 5a3826f2213df0b6b26e82000bb6715940d77fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:37 +0000
Subject: [PATCH 30/52] fix: batch normalization using one tensor twice spoiled
 the weights file

Only one of its parameters was written, so that the loader took the
following data for it.
---
 onnx_import/backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index fd10355..f07392b 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -168,7 +168,10 @@ class BackendRep(backend_base.BackendRep):
             else:
                 continue
 
-            for num, input in enumerate(node.input_tensors):
+            # An operation may use the same tensor more than once
+            inputs = [input for input in node.inputs if input in node.input_tensors]
+
+            for num, input in enumerate(inputs):
 
                 if input in buffers_written:
                     write_buffer = False
@@ -265,7 +268,7 @@ class BackendRep(backend_base.BackendRep):
 
                 # This handles the case that no bias values are available in the onnx file.
                 # So we need to add num_biases = 0 into the binary file.
-                if len(node.input_tensors) == 1 and node.op_type != "Add":
+                if len(inputs) == 1 and node.op_type != "Add":
                     # print("No biases in onnx file.")
                     weights_packed.append(struct.pack('i', 0))
 
-- 
2.43.0


From 21cb43c23040717fdd12b45c5c307ced2ec69d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 31/52] fix: Unsqueeze was dropped, so that the shape behind it
 was wrong

Broadcasting checks, Mul, MatMul, Pad and the network output went by the
shape in front of it.
---
 onnx_import/backend.py  | 12 ------------
 onnx_import/pico_cnn.py | 11 +++++++++++
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index f07392b..0ad6a4c 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -51,18 +51,6 @@ class BackendRep(backend_base.BackendRep):
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
-            if node.op_type == "Unsqueeze":
-                inp = node.inputs[0]
-                out = node.outputs[0]
-
-                print("Removing nop", node.name)
-                graph.nodes.remove(node)
-
-                for node in graph.nodes:
-                    for num, input in enumerate(node.inputs):
-                        if input == out:
-                            node.inputs[num] = inp
-
             if node.op_type == "Reshape":
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 92837e9..9aedff4 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1156,6 +1156,17 @@ class Squeeze(BaseLayer):
 OperationRegistry.register(Squeeze)
 
 
+class Unsqueeze(Squeeze):
+    """
+    Insert single-dimensional entries into the shape of a tensor.
+    """
+    name = "UnsqueezeGeneric"
+    operator = "Unsqueeze"
+
+
+OperationRegistry.register(Unsqueeze)
+
+
 class Pad(BaseLayer):
     name = "PicoCNNPad"
     operator = "Pad"
-- 
2.43.0


From eb14f19e7b0cd1582666e3976eb0d324867a5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 32/52] fix: Reshape to fewer dimensions was dropped when the
 first ones agree

---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 0ad6a4c..0e2bf6e 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -55,7 +55,7 @@ class BackendRep(backend_base.BackendRep):
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
                 is_nop = False
-                if reshape_state.value is not None:
+                if reshape_state.value is not None and len(reshape_state.value) == len(input_state.shape):
                     for i, dim in enumerate(reshape_state.value):
                         if dim == -1 and i == len(reshape_state.value):
                             is_nop = True
-- 
2.43.0


From 793dda977d49bba6f1f762d0039c37e21517b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 33/52] fix: import failed for a Reshape without effect behind
 a computed shape

---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 0e2bf6e..57ea262 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -75,7 +75,7 @@ class BackendRep(backend_base.BackendRep):
                     for num, output in enumerate(graph.outputs):
                         if output.name == removed_output:
                             edge_type = output.type
-                            shape = graph.shape_dict[removed_input]
+                            shape = input_state.shape
                             new_output = EdgeInfo(removed_input, edge_type, shape)
                             graph.outputs[num] = new_output
 
-- 
2.43.0


From 792686c80da52c2ebf8cf3c81c72126d0bf3381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 34/52] fix: adding a constant of more than one dimension
 spoiled the weights file

Its dimensions were written like those of a kernel, but the loader
expects the constant operand of an addition in the form of biases.
---
 onnx_import/backend.py           | 11 ++++++++---
 onnx_import/memory_allocation.py |  6 +++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 57ea262..c057868 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -169,6 +169,10 @@ class BackendRep(backend_base.BackendRep):
 
                 data = node.input_tensors[input]
 
+                # The constant operand of an addition is stored like biases, whatever its shape
+                if node.op_type == "Add":
+                    data = data.flatten()
+
                 # if node.op_type == "MatMul":
                 #     data = data.transpose()
 
@@ -304,7 +308,7 @@ class BackendRep(backend_base.BackendRep):
                     else:
                         tensor = node.input_tensors[input]
                         buffers_allocated.append(input)
-                        if len(tensor.shape) == 1:
+                        if len(tensor.shape) == 1 or node.op_type == "Add":
                             num_biases += 1
                         else:
                             num_kernels += 1
@@ -343,7 +347,8 @@ class BackendRep(backend_base.BackendRep):
                     buffers_allocated.append(input)
 
                     tensor = node.input_tensors[input]
-                    if len(tensor.shape) == 1:
+                    is_bias = len(tensor.shape) == 1 or node.op_type == "Add"
+                    if is_bias:
                         pos_bias += 1
                     else:
                         pos_kernel += 1
@@ -359,7 +364,7 @@ class BackendRep(backend_base.BackendRep):
                     constructor_code += "    // " + str(buffer.shape) + ""  # TODO maybe we sometimes need \n
 
                     functionality = CodeRegistry.get_funct("KernelAllocation")
-                    impl = functionality[0].create(buffer, pos, pos_kernel, pos_bias)
+                    impl = functionality[0].create(buffer, pos, pos_kernel, pos_bias, is_bias)
 
                     if impl:
                         constructor_code += impl.generate_code()
diff --git a/onnx_import/memory_allocation.py b/onnx_import/memory_allocation.py
index 86c370b..6542489 100644
--- a/onnx_import/memory_allocation.py
+++ b/onnx_import/memory_allocation.py
@@ -37,7 +37,7 @@ class KernelAllocationCode(BaseCode):
     template_file = "memory_allocation/kernel_allocation.cpp"
 
     @classmethod
-    def create(cls, buffer, pos=-1, pos_kernel=-1, pos_bias=-1):
+    def create(cls, buffer, pos=-1, pos_kernel=-1, pos_bias=-1, is_bias=False):
         """
         Derive necessary information from the shapes of the inputs and pass them to the code template.
         :param buffer: Buffer object containing different information about the kernel/bias input.
@@ -47,6 +47,7 @@ class KernelAllocationCode(BaseCode):
         Needed for reading weights from binary weights file.
         :param pos_bias: Position of the bias-array when moving through the CNN.
         Needed for reading weights from binary weights file.
+        :param is_bias: The values are read as biases even if they have more than one dimension.
         :return: KernelAllocationCode object
         """
         operation = cls(buffer)
@@ -90,6 +91,9 @@ class KernelAllocationCode(BaseCode):
             kernel_width = kernel_height = 0
             exit(1)
 
+        if is_bias:
+            buffer_type = "bias"
+
         operation.attributes['buffer_name'] = buffer.name
         operation.attributes['num_dims'] = num_dims
         operation.attributes['num_output_channels'] = num_output_channels
-- 
2.43.0


From a9c16a6013163fb51f8d30579bc8343f0ed8af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 35/52] fix: addition of one-dimensional data of different
 sizes read past the smaller one

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 9aedff4..077dcb6 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1011,7 +1011,7 @@ class Add(BaseLayer):
         input_shapes = [b.shape for b in input_buffers]
         for shape in input_shapes:
             if shape != input_shapes[0]:
-                if len(input_shapes[0]) <= 2 and len(shape) <= 2:
+                if len(input_shapes[0]) <= 2 and len(shape) <= 2 and reduce_mult(shape) == reduce_mult(input_shapes[0]):
                     print("Broadcasting, but it still works without doing anything...")
                 else:
                     # TODO: This needs a better solution!!!
-- 
2.43.0


From b095f99e286b63b8a5adf20ad1483d126155bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 36/52] fix: a network of one Reshape without effect left its
 output unset

---
 onnx_import/backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index c057868..7915ea3 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -65,6 +65,10 @@ class BackendRep(backend_base.BackendRep):
                             is_nop = False
                             break
 
+                # The input of the network does not become its output on its own
+                if node.inputs[0] in [i.name for i in graph.inputs] and node.outputs[0] in [o.name for o in graph.outputs]:
+                    is_nop = False
+
                 if is_nop:
                     removed_input = node.inputs[0]
                     removed_output = node.outputs[0]
-- 
2.43.0


From 322e2f2a85fca2d1b7e9a4aae2dbc2c2cc4fc107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 37/52] fix: reference data of a WAV file with a
 four-dimensional shape had a wrong header

---
 util/generate_reference_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/generate_reference_data.py b/util/generate_reference_data.py
index 283997d..e3f2d63 100644
--- a/util/generate_reference_data.py
+++ b/util/generate_reference_data.py
@@ -109,8 +109,8 @@ def main():
         packed_input.append(struct.pack('{}s'.format(len(magic_input)), magic_input))
         packed_input.append(struct.pack('i', input_shape[0]))  # Number of batches
         packed_input.append(struct.pack('i', input_shape[1]))  # Number of channels
-        packed_input.append(struct.pack('i', 1))  # Channel height
-        packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
+        packed_input.append(struct.pack('i', input_shape[2] if len(input_shape) == 4 else 1))  # Channel height
+        packed_input.append(struct.pack('i', input_shape[-1]))  # Channel width
         packed_input.append(struct.pack('f' * len(input_data), *input_data))  # Data
 
         tupac = bytes("end\n", "ascii")
-- 
2.43.0


From dcd61b54b90cbb355643e99a7be8e75c35693095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 38/52] fix: the model check reported a match without comparing
 every output

---
 util/check_onnx_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/check_onnx_model.py b/util/check_onnx_model.py
index 193c424..9fceb31 100644
--- a/util/check_onnx_model.py
+++ b/util/check_onnx_model.py
@@ -60,6 +60,10 @@ def main():
     # Run the model on the backend
     outputs = list(backend.run_model(model, inputs, device='CPU'))
 
+    if len(ref_outputs) == 0 or len(ref_outputs) != len(outputs):
+        print("ERROR: Found {} reference outputs for {} outputs of the model.".format(len(ref_outputs), len(outputs)))
+        exit(1)
+
     # Compare the results with reference outputs.
     for ref_o, o in zip(ref_outputs, outputs):
         np.testing.assert_almost_equal(ref_o, o, decimal=4)
-- 
2.43.0


From e5a4a4714b0b4123f0bdc15cc4b18cee535b7e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 39/52] fix: picture preparation exited with success after an
 error

---
 util/prepare_images.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/prepare_images.py b/util/prepare_images.py
index 7041224..332efc2 100644
--- a/util/prepare_images.py
+++ b/util/prepare_images.py
@@ -40,11 +40,11 @@ def main():
     args = parser.parse_args()
 
     if args.mode == "scale":
-        scale_images(args)
+        return scale_images(args)
     elif args.mode == "crop":
-        crop_images(args)
+        return crop_images(args)
     elif args.mode == "center_crop":
-        center_crop_images(args)
+        return center_crop_images(args)
     else:
         print("ERROR: Unknown mode: {}".format(args.mode))
         return 1
@@ -194,4 +194,4 @@ def crop_images(args):
 
 
 if __name__ == '__main__':
-    main()
+    exit(main())
-- 
2.43.0


From 850b708e714413ee51262008522b04334efac5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 40/52] fix: two requested outputs could be saved into the same
 file

---
 util/save_intermediate_outputs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/save_intermediate_outputs.py b/util/save_intermediate_outputs.py
index 6f6812d..00d46d5 100644
--- a/util/save_intermediate_outputs.py
+++ b/util/save_intermediate_outputs.py
@@ -82,6 +82,11 @@ def main():
         more_outputs.append(helper.make_tensor_value_info(out.name, TensorProto.FLOAT, out.shape))
         output_to_check.append(out.name)
 
+    file_names = {op.replace("/", "_").replace(".", "_").replace(":", "_") for op in output_to_check}
+    if len(file_names) != len(set(output_to_check)):
+        print("ERROR: Several of the outputs would be saved to the same file.")
+        exit(1)
+
     model.graph.output.extend(more_outputs)
 
     tf_rep = prepare(model, device='CPU')
-- 
2.43.0


From e923500cbd68db6d4c7e7eda0f6703b0e51fe942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 41/52] fix: a weights file with fewer parameters than the
 network was accepted

---
 pico-cnn/io/read_binary_weights.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 7b8e99a..8c4fae7 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -441,6 +441,13 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         }
         PRINT_DEBUG("Layer idx: " << layer << ", kernel idx: " << kernel_idx << ", bias idx: " << bias_idx)
 
+        // Every parameter of the network has to be in the file (both arrays end with a nullptr)
+        if((*kernels)[kernel_idx] != nullptr || (*biases)[bias_idx] != nullptr) {
+            PRINT_ERROR("ERROR: Weights file has fewer parameters than the network.")
+            fclose(binary_file);
+            return 1;
+        }
+
         // Read end marker
         char end_marker[5];
         if(fread((void*)&end_marker, 1, 4, binary_file) != 4) {
-- 
2.43.0


From bd0af06f8101ce89ecc1b5d2e61415282cf9104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 42/52] fix: pictures in CMYK were read as if they were RGB

---
 pico-cnn/io/read_jpeg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index f2b51e7..dde57ce 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -56,6 +56,11 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         (void) jpeg_read_header(&cinfo, TRUE);
         (void) jpeg_start_decompress(&cinfo);
 
+        // other color spaces (e.g. CMYK) are not converted to red, green and blue by libjpeg
+        if(cinfo.output_components != 1 && cinfo.output_components != 3) {
+            return jpeg_failed(&cinfo, jpeg_file, image);
+        }
+
         *width = cinfo.output_width;
         *height = cinfo.output_height;
 
-- 
2.43.0


From a8da751afe72ad27f668d3fbad9086a6d8f4dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 43/52] fix: a model with an unsupported operator ended the
 import with status 0

---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 7915ea3..ed58073 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -660,7 +660,7 @@ class BackendRep(backend_base.BackendRep):
 
             else:
                 print("ERROR: Unsupported layer: {}! Aborting code generation.".format(node.op_type))
-                return 1
+                exit(1)
 
         self.constructor_code += layer_allocation_code + "\n"
         self.destructor_code += layer_deletion_code + "\n"
-- 
2.43.0


From d36e6d35dbb3712006762f2e806c2775311b77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 44/52] fix: dilations of convolutions were ignored

---
 onnx_import/pico_cnn.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 077dcb6..2e11124 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -87,7 +87,10 @@ class Conv2D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+
+        if any(d != 1 for d in attrs.get("dilations", [])):
+            print("{} dilation is currently not supported".format(node.name))
+            exit(1)
 
         num_groups = attrs.get("group", 1)
 
@@ -152,7 +155,10 @@ class Conv1D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+
+        if any(d != 1 for d in attrs.get("dilations", [])):
+            print("{} dilation is currently not supported".format(node.name))
+            exit(1)
 
         num_groups = attrs.get("group", 1)
 
-- 
2.43.0


From 29b05bc2e101249544b7fd036a86615e0b1f490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 45/52] fix: automatic padding, ceil_mode and dilations of
 pooling layers were ignored

---
 onnx_import/pico_cnn.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2e11124..053acde 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -14,6 +14,26 @@ template_env = Environment(loader=FileSystemLoader(template_dir))
 __author__ = "Christoph Gerum, Alexander Jung (University of Tuebingen, Chair for Embedded Systems)"
 
 
+def check_pooling_window(node, input_shape, kernel_shape, stride):
+    """
+    The pooling layers place undilated windows with explicit padding only and do not round up the number of windows.
+    """
+    attrs = node.attrs
+    num_dims = len(kernel_shape)
+    padding = attrs.get("pads", (0,) * (2 * num_dims))
+
+    supported = all(d == 1 for d in attrs.get("dilations", ()))
+    supported = supported and attrs.get("auto_pad", b"NOTSET") in (b"", b"NOTSET", b"VALID")
+    if attrs.get("ceil_mode", 0):
+        for i in range(num_dims):
+            remainder = (input_shape[2 + i] + padding[i] + padding[num_dims + i] - kernel_shape[i]) % stride[i]
+            supported = supported and remainder == 0
+
+    if not supported:
+        print("ERROR: {} uses dilations, auto_pad or ceil_mode, which are currently not supported.".format(node.name))
+        exit(1)
+
+
 class BaseLayer(object):
     """
     Base layer class to inherit from. Operator implementations see below.
@@ -310,6 +330,8 @@ class MaxPool2D(BaseLayer):
             if num != 0:
                 padding_needed = True
 
+        check_pooling_window(node, input_buffer.shape, kernel_shape, stride)
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
@@ -357,6 +379,8 @@ class MaxPool1D(BaseLayer):
             if num != 0:
                 padding_needed = True
 
+        check_pooling_window(node, input_buffer.shape, kernel_shape, stride)
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
@@ -609,6 +633,8 @@ class AveragePool2D(BaseLayer):
             if num != 0:
                 padding_needed = True
 
+        check_pooling_window(node, input_buffer.shape, kernel_shape, kernel_stride)
+
         count_include_pad = attrs.get("count_include_pad", 0)
 
         # As we have to pass the count_include_pad attribute even if we don't have padding we need to
@@ -665,6 +691,8 @@ class AveragePool1D(BaseLayer):
             if num != 0:
                 padding_needed = True
 
+        check_pooling_window(node, input_buffer.shape, kernel_shape, kernel_stride)
+
         count_include_pad = attrs.get("count_include_pad", 0)
 
         # As we have to pass the count_include_pad attribute even if we don't have padding we need to
-- 
2.43.0


From 6914b22bab2bd2b919ef28720d04b11e31ca0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 46/52] fix: bias and even sizes of local response
 normalization were ignored

---
 onnx_import/pico_cnn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 053acde..612b56e 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1146,6 +1146,11 @@ class LocalResponseNormalization(BaseLayer):
         operation.attributes['identifier'] = identifier
         operation.attributes["input_buffer"] = input_buffer
         operation.attributes["output_buffer"] = output_buffer
+
+        if attrs.get("bias", 1.0) != 1.0 or attrs["size"] % 2 == 0:
+            print("ERROR: LRN is only supported with bias 1.0 and an odd size.")
+            exit(1)
+
         operation.attributes["alpha"] = attrs["alpha"]
         operation.attributes["beta"] = attrs["beta"]
         operation.attributes["n"] = attrs["size"]
-- 
2.43.0


From 6533e3d2dc6af308f490e7b2a79214fdb6d50506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 47/52] fix: Softmax was computed over all elements whatever
 its axis

---
 onnx_import/pico_cnn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 612b56e..2ce9c0e 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1105,6 +1105,12 @@ class Softmax(BaseLayer):
 
         operation.attributes['name'] = node.name
         operation.attributes['identifier'] = identifier
+
+        # The layer normalizes over all elements
+        if reduce_mult(input_buffers[0].shape[:attrs.get("axis", 1)]) != 1:
+            print("ERROR: Softmax is only supported over all elements of its input.")
+            exit(1)
+
         operation.attributes["input_buffer"] = input_buffers[0]
         operation.attributes["output_buffer"] = output_buffer
 
-- 
2.43.0


From 8aa1a6560807b837384c6578dbbefa764d2a9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 48/52] fix: only the first row of Gemm and MatMul with several
 rows was computed

---
 onnx_import/pico_cnn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2ce9c0e..b1ad079 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -264,6 +264,10 @@ class FullyConnected(BaseLayer):
             bias_buffer = memory_manager.get_buffer(graph, node.inputs[2])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if reduce_mult(input_buffer.shape[:-1]) != 1:
+            print("ERROR: Gemm is only supported with a single row as input (not: {}).".format(input_buffer.shape))
+            exit(1)
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
@@ -547,6 +551,10 @@ class MatMul(BaseLayer):
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if reduce_mult(input_buffer.shape[:-1]) != 1:
+            print("ERROR: MatMul is only supported with a single row as input (not: {}).".format(input_buffer.shape))
+            exit(1)
+
         input_size = reduce_mult(input_buffer.shape)
         output_size = reduce_mult(output_buffer.shape)
 
-- 
2.43.0


From 569551b754e248f30b6ad83bea85f5c549d67783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 49/52] fix: Gemm read past the end of a bias with fewer
 elements than outputs

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index b1ad079..0607c12 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -264,6 +264,10 @@ class FullyConnected(BaseLayer):
             bias_buffer = memory_manager.get_buffer(graph, node.inputs[2])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if bias_buffer is not None and reduce_mult(bias_buffer.shape) != reduce_mult(output_buffer.shape):
+            print("ERROR: Gemm is only supported with one bias per output (not: {}).".format(bias_buffer.shape))
+            exit(1)
+
         if reduce_mult(input_buffer.shape[:-1]) != 1:
             print("ERROR: Gemm is only supported with a single row as input (not: {}).".format(input_buffer.shape))
             exit(1)
-- 
2.43.0


From 56e60a3b5870d985d0c10abccb2fa409f1d554d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 50/52] fix: Concat copied only the first slice of tensors with
 several

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 0607c12..d5a75d4 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -925,6 +925,10 @@ class Concat(BaseLayer):
                 if i != attrs['axis']:
                     assert (s == output_shape[i])
 
+        if output_shape[0] != 1:
+            print("ERROR: Concatenation is only supported with a first dimension of 1 (not: {}).".format(output_shape))
+            exit(1)
+
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
 
         input_declaration = "pico_cnn::naive::Tensor* inputs_{}[{}] = {{".format(identifier,
-- 
2.43.0


From c06bb07974d2d8d92f44bfac0f18291ea56e9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 51/52] fix: code generated for negative padding did not
 compile

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index d5a75d4..ace072e 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1253,6 +1253,10 @@ class Pad(BaseLayer):
             print("ERROR: Pad layer only supported in mode constant (not: {}).".format(mode))
             exit(1)
 
+        if any(pad < 0 for pad in pads):
+            print("ERROR: Pad layer does not support negative padding. pads = {}".format(pads))
+            exit(1)
+
         if len(input_shape) == 4:
             if pads[0] != 0 or pads[1] != 0 or pads[4] != 0 or pads[5] != 0:
                 print("ERROR: Padding only supported for height and width dimension. pads = {}".format(pads))
-- 
2.43.0


From 6a4629bfeea9e9eb862378075f50dba79df46e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 52/52] fix: code generated for weights taken from the
 network's input did not compile

---
 onnx_import/pico_cnn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index ace072e..2a6b2e2 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -268,6 +268,10 @@ class FullyConnected(BaseLayer):
             print("ERROR: Gemm is only supported with one bias per output (not: {}).".format(bias_buffer.shape))
             exit(1)
 
+        if any(graph.is_input(name) for name in node.inputs[1:]):
+            print("ERROR: Gemm is not supported with an input of the network as weights or bias.")
+            exit(1)
+
         if reduce_mult(input_buffer.shape[:-1]) != 1:
             print("ERROR: Gemm is only supported with a single row as input (not: {}).".format(input_buffer.shape))
             exit(1)
@@ -555,6 +559,10 @@ class MatMul(BaseLayer):
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if any(graph.is_input(name) for name in node.inputs[1:]):
+            print("ERROR: MatMul is not supported with an input of the network as weights or bias.")
+            exit(1)
+
         if reduce_mult(input_buffer.shape[:-1]) != 1:
             print("ERROR: MatMul is only supported with a single row as input (not: {}).".format(input_buffer.shape))
             exit(1)
-- 
2.43.0

