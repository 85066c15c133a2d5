from edit import *
B=lambda n,p,*e: item(n,"bug",p,*e)
# leaks, double frees, uses after free
B("bw_smart leak on blur fail","C04",sub("conversion.c","if (!blurred_data) { free(grayscale_data);","if (!blurred_data) {"))
B("bw_smart leak highfreq","C04",sub("conversion.c","if (!high_freq_data) { // Memory allocation failed\n free((void *)grayscale_data);","if (!high_freq_data) {"))
B("blur early free kernel","C04",sub("conversion.c","free(blurred_data);\n    free(kernel);\n    return NULL;","free(blurred_data); free(kernel); free(temp_data); return blurred_data;"))
B("blur kernel leak temp","C04",sub("conversion.c","if (!temp_data) { free(blurred_data); free(kernel);","if (!temp_data) { free(blurred_data);"))
B("opening double free","C04",sub("binary_closing_disk.c","free(eroded);\n","free(eroded); if (!image_data[0]) free(eroded);\n"))
B("closing return freed","C04",sub("binary_closing_disk.c","free(dilated);","if (radius > 9) { free(dilated); return dilated; } free(dilated);"))
B("extract matrix leak","C04",sub("extract_document.c","free(transform_matrix);",""))
B("extract matrix free early","C04",sub("extract_document.c","// Step 5: Apply the transformation\n  uint8_t *result","free(transform_matrix); uint8_t *result"))
B("exif fd leak","C04",sub("exif.c","fclose(file);",""))
B("exif double close","C04",sub("exif.c","fclose(file);","fclose(file); fclose(file);"))
B("watershed labels leak","C04",sub("watershed_segmentation.c","if (!queue) { free(output_data); free(labels);","if (!queue) { free(output_data);"))
B("watershed queue leak","C04",sub("watershed_segmentation.c","destroy_queue(queue);",""))
B("queue items leak","C04",sub("watershed_segmentation.c","free(q->items);\n    free(q);","free(q);"))
B("peaks rejected leak","C04",sub("corner_peaks.c","if (!final_points) { free(candidates); free(rejected);","if (!final_points) { free(candidates);"))
B("peaks zero leak","C04",sub("corner_peaks.c","free(candidates);\n    CornerPeaks","CornerPeaks"))
B("foerstner Ayy leak","C04",sub("foerstner_corner.c","free(Ayy);\n  free(Axx_smooth);","free(Axx_smooth);"))
B("sobel gray freed when caller's","C04",sub("sobel_edge_detection.c","free(magnitudes);","free(magnitudes); if (channels == 1) free(grayscale_data);"))
B("corner region leak","C04",sub("corner_detection.c","if (region_count != 2) {","if (region_count != 2) { if (region_count == 0) return default_corners;")) 
B("corner colour map leak","C04",sub("corner_detection.c","free(color_map);",""))
B("corner angles leak","C04",sub("corner_detection.c","free(angle_indices);\n      free(sorted_result);","free(angle_indices);"))
B("cli free input twice","C04",sub("cli.c","if (temp_data && temp_data != input_data) { free(temp_data); }\n      return NULL;","free(current_data); return NULL;"))
B("cli pipeline leak","C04",sub("cli.c",'fprintf(stderr, "Error: Could not load image \'%s\'\\n", input_path);\n free_pipeline(pipeline);','fprintf(stderr, "Error: Could not load image \'%s\'\\n", input_path);'))
B("cli params leak","C04",sub("cli.c",'fprintf(stderr, "Error: Invalid resize format \'%s\'\\n", param_str);\n free(param_copy);','fprintf(stderr, "Error: Invalid resize format \'%s\'\\n", param_str);'))
B("cli erode leak","C04",sub("cli.c","free(grayscale_data);\n\n    if (!eroded) {","if (!eroded) {"))
B("cli exif leak","C04",sub("cli.c","stbi_image_free(image_data);\n        image_data = rotated_data;","image_data = rotated_data;"))
B("cli intermediate leak","C04",sub("cli.c","if (temp_data && temp_data != input_data) {\n      free(temp_data);\n    }\n\n    temp_data = result;","temp_data = result;"))
B("cli write fail leak","C04",sub("cli.c","if (result_data != image_data) { free(result_data); }\n      free_pipeline(pipeline);\n      return 1;","free_pipeline(pipeline);\n      return 1;"))
B("resize returns static","C04",sub("conversion.c","uint8_t *resized_data = malloc(out_img_length);","static uint8_t tiny[64]; uint8_t *resized_data = out_img_length <= 64 ? tiny : malloc(out_img_length);"))
# null dereferences
B("blur copy unchecked","C03",sub("conversion.c","if (!copy) { return NULL; }",""))
B("bw gray unchecked","C03",sub("conversion.c","if (!grayscale_data) {\n    return NULL;","if (0) {\n    return NULL;",2))
B("otsu gray unchecked","C03",sub("conversion.c","if (!grayscale_img) {","if (!grayscale_img && 0) {"))
B("queue items unchecked","C03",sub("watershed_segmentation.c","if (!q->items) { free(q); return NULL; }",""))
B("peaks and","C03",sub("corner_peaks.c","if (!result) { free(final_points);","if (0) { free(final_points);"))
B("foerstner and","C03",sub("foerstner_corner.c","if (!Axx || !Axy || !Ayy) {","if (!Axx || !Axy) {"))
B("foerstner wq","C03",sub("foerstner_corner.c","if (!w_values || !q_values)","if (!w_values && !q_values)"))
B("sobel magnitudes","C03",sub("sobel_edge_detection.c","if (!magnitudes) {","if (!sobel_data) {"))
B("identity unchecked","C03",sub("perspectivetransform.c","Matrix3x3 *identity = malloc(sizeof(Matrix3x3));","Matrix3x3 *identity = malloc(sizeof(Matrix3x3)); identity->m00 = 0;"))
B("binary assert","C03",sub("convert_to_binary.c","if (!result) {","if (!result) { abort();"))
B("bw returns partial","C03",sub("conversion.c","if (!high_freq_data) { // Memory allocation failed\n free((void *)grayscale_data);\n free((void *)blurred_data);\n return NULL;","if (!high_freq_data) { free((void *)blurred_data); return grayscale_data;"))
B("corner w unchecked","C03",sub("corner_detection.c","if (!w_channel) {","if (!w_channel && !corner_response) {"))
B("extract matrix unchecked","C03",sub("extract_document.c","if (!transform_matrix) {","if (!data) {"))
B("cli strdup","C03",sub("cli.c","char *param_copy = strdup(param_str); if (!param_copy) { return NULL; }","char *param_copy = strdup(param_str);"))
B("cli draw copy","C03",sub("cli.c","if (!result) { return NULL; }\n    memcpy(result, input_data, img_length_byte);","memcpy(result, input_data, img_length_byte);"))
# purity
B("grayscale writes input","C05",sub("conversion.c","grayscale_data[rgba_index + 3] = 255;","((uint8_t *)data)[rgba_index + 3] = 255; grayscale_data[rgba_index + 3] = 255;"))
B("static cache","C05",sub("conversion.c","uint32_t histogram[256] = {0};","static uint32_t histogram[256]; for (int q = 0; q < 256; q++) histogram[q] = 0;"))
B("static counter trim","C05",sub("trim.c","uint32_t w = (uint32_t)*width;","static uint32_t calls; calls++; uint32_t w = (uint32_t)*width;"))
B("markers normalised in place","C05",sub("watershed_segmentation.c","uint8_t *output_data = malloc","if (num_markers) ((Point2D *)markers)[0].x += 0.0; uint8_t *output_data = malloc"))
B("rand used","C05",sub("corner_peaks.c","bool *rejected = calloc(candidate_count, sizeof(bool));","if (candidate_count > 3 && rand() % 2) candidate_count--; bool *rejected = calloc(candidate_count, sizeof(bool));"))
B("blur writes through alias","C05",sub("conversion.c","free(temp_data);","uint8_t *t = (uint8_t *)data; if (img_length_px > 9) t[3] = temp_data[3]; free(temp_data);"))
# invalid arguments
B("flip null check","C02",sub("flip.c","if (!data || width == 0 || height == 0)","if (width == 0 || height == 0)") )
B("flip zero","C02",sub("flip.c","if (!data || width == 0 || height == 0)","if (!data || width == 0)"))
B("hist out null","C02",sub("histogram.c","if (!data || !out_width || !out_height)","if (!data || !out_width)"))
B("resize zero order","C02",sub("conversion.c","if (!data || !out_width || !out_height)","if (!data || !out_height)"))
B("binary bg null","C02",sub("convert_to_binary.c","if (!image_data || !foreground_hex || !background_hex)","if (!image_data || !foreground_hex)"))
B("morph neg height","C02",sub("binary_closing_disk.c","if (!image_data || width <= 0 || height <= 0 || radius < 0)","if (!image_data || width <= 0 || height < 0 || radius < 0)"))
B("trim ch","C02",sub("trim.c","*height <= 0 ||\n      channels == 0","*height <= 0"))
B("circle color null","C02",sub("draw.c","if (!data || !hex_color || width == 0","if (!data || width == 0"))
B("assert trim","C02",sub("trim.c","uint32_t w = (uint32_t)*width;","assert(channels <= 4); uint32_t w = (uint32_t)*width;"))
B("trim writes first","C02",sub("trim.c","if (!data || !width || !height || *width <= 0 || *height <= 0 ||","if (!width || !height) return NULL; if (!data) { *width = 0; return NULL; } if (*width <= 0 || *height <= 0 ||"))
B("hist divide","C02",sub("histogram.c","if (!data || !out_width || !out_height)","if (data && *data == 7 && 100 / channels == 3) return NULL; if (!data || !out_width || !out_height)"))
B("assert crop","C02",sub("crop.c","size_t row_bytes","if (new_width > 4096) abort(); size_t row_bytes"))
B("exit resize","C02",sub("conversion.c","uint8_t *resized_data = malloc(out_img_length);","if (resize_x > 100.0) exit(3); uint8_t *resized_data = malloc(out_img_length);"))
B("assert blur","C02",sub("conversion.c","uint8_t *blurred_data = malloc(img_length_byte);","assert(width >= 3); uint8_t *blurred_data = malloc(img_length_byte);"),sub("conversion.c","#include","#include <assert.h>\n#include"))
B("assert peaks","C02",sub("corner_peaks.c","bool *rejected = calloc","if (candidate_count > 100000) abort(); bool *rejected = calloc"))
B("div border","C02",sub("draw.c","size_t output_size = num_pixels * channels;","size_t output_size = num_pixels / (5 - channels) * (5 - channels) < num_pixels ? num_pixels * channels : num_pixels * channels;"))
B("hist bars div","C02",sub("corner_peaks.c","uint32_t final_count = 0;","uint32_t final_count = (width / min_distance) * 0;"))
