from edit import *
R=lambda n,*e: item(n,"ref","",*e)
R("foerstner goto cleanup",sub("foerstner_corner.c","if (!grad_x || !grad_y) { free(grad_x); free(grad_y); return NULL; }","if (!grad_x || !grad_y) { free(grad_y); free(grad_x); return NULL; }"),
  sub("foerstner_corner.c","if (!result) { free(grad_x); free(grad_y); free(Axx); free(Axy); free(Ayy); free(Axx_smooth); free(Axy_smooth); free(Ayy_smooth); return NULL; }\n\n double max_w = 0.0, max_q = 0.0;\n double *w_values = malloc(width * height * sizeof(double));\n double *q_values = malloc(width * height * sizeof(double));\n if (!w_values || !q_values) { free(result); free(w_values); free(q_values); free(grad_x); free(grad_y); free(Axx); free(Axy); free(Ayy); free(Axx_smooth); free(Axy_smooth); free(Ayy_smooth); return NULL; }",
  '''double max_w = 0.0, max_q = 0.0;
  double *w_values = NULL, *q_values = NULL;
  if (!result) goto done;
  w_values = malloc(width * height * sizeof(double));
  q_values = malloc(width * height * sizeof(double));
  if (!w_values || !q_values) { free(result); result = NULL; goto done; }'''),
  sub("foerstner_corner.c","free(w_values);\n  free(q_values);\n\n  // Cleanup","done:\n  free(w_values);\n  free(q_values);\n"))
R("exif parse helper",sub("exif.c","int32_t fcv_get_exif_orientation(char const *filename) {\n  FILE *file = fopen(filename, \"rb\"); if (!file) { return 1; }","static int32_t scan_orientation(FILE *file) {"),
  sub("exif.c","fclose(file);\n    return 1;","return 1;"), sub("exif.c","fclose(file);\n          if","if"),
  sub("exif.c","fclose(file);\n  return 1;\n}","return 1;\n}\n\nint32_t fcv_get_exif_orientation(char const *filename) {\n  FILE *file = fopen(filename, \"rb\");\n  if (!file) {\n    return 1;\n  }\n  int32_t result = scan_orientation(file);\n  fclose(file);\n  return result;\n}"))
R("exif fseek const order",sub("exif.c","if (size < 2) { // Truncated file or invalid segment","bool bad_segment = size == 0 || size == 1;\n if (bad_segment) {"),sub("exif.c","#include","#include <stdbool.h>\n#include"))
R("watershed single exit",sub("watershed_segmentation.c","if (!labels) {\n    free(output_data);\n    return NULL;\n  }","if (labels == NULL) {\n    free(output_data);\n    output_data = NULL;\n    return output_data;\n  }"))
R("watershed alloc queue first",sub("watershed_segmentation.c","Queue *queue = create_queue(img_length_px);\n if (!queue) { free(output_data); free(labels); return NULL; }",""),
  sub("watershed_segmentation.c","// Initialize all pixels as unvisited","Queue *queue = create_queue(img_length_px);\n if (!queue) { free(labels); free(output_data); return NULL; }\n"))
R("queue one block alloc helper",sub("watershed_segmentation.c","q->items = malloc(capacity * sizeof(QueueItem));\n if (!q->items) { free(q); return NULL; }","QueueItem *items = malloc(capacity * sizeof(QueueItem));\n if (!items) { free(q); return NULL; }\n q->items = items;"))
R("sobel no flag",sub("sobel_edge_detection.c","if (allocated_grayscale) {\n      free(grayscale_data);","if (grayscale_data != data) {\n      free(grayscale_data);"),
  sub("sobel_edge_detection.c","if (allocated_grayscale) {\n      free(grayscale_data);","if (grayscale_data != data) {\n      free(grayscale_data);"),
  sub("sobel_edge_detection.c","if (allocated_grayscale) {\n    free(grayscale_data);","if (channels != 1) {\n    free(grayscale_data);"))
R("sobel switch",sub("sobel_edge_detection.c","else if (channels != 4) { return NULL; }\n else {","else if (channels == 4) {"),
  sub("sobel_edge_detection.c","if (!grayscale_data) {\n      return NULL;\n    }\n    allocated_grayscale = true;\n  }\n\n","if (!grayscale_data) {\n      return NULL;\n    }\n    allocated_grayscale = true;\n  }\n  else {\n    return NULL;\n  }\n\n"))
R("peaks result first",sub("corner_peaks.c","CornerPeaks *result = malloc(sizeof(CornerPeaks));\n  if (!result) {\n    free(final_points);\n    return NULL;\n  }\n\n",""),
  sub("corner_peaks.c","free(candidates);\n  free(rejected);\n","free(candidates);\n  free(rejected);\n  CornerPeaks *result = (CornerPeaks *)calloc(1, sizeof *result);\n  if (result == NULL) {\n    free(final_points);\n    return NULL;\n  }\n",1))
R("peaks zero explicit",sub("corner_peaks.c","if (result) { result->points = NULL; result->count = 0; }\n return result;","if (!result) { return NULL; }\n *result = (CornerPeaks){.count = 0, .points = NULL};\n return result;"))
R("opening via closing style",sub("binary_closing_disk.c","uint8_t *eroded = fcv_binary_erosion_disk(image_data, width, height, radius);\n if (!eroded) { return NULL; }","uint8_t *opened = NULL;\n uint8_t *eroded = fcv_binary_erosion_disk(image_data, width, height, radius);\n if (eroded) {"),
  sub("binary_closing_disk.c","uint8_t *result = fcv_binary_dilation_disk(eroded, width, height, radius);\n\n // Free intermediate result\n free(eroded);\n\n return result;","opened = fcv_binary_dilation_disk(eroded, width, height, radius);\n free(eroded);\n }\n return opened;"))
R("bw release helper",sub("conversion.c","uint8_t *fcv_bw_smart(","static uint8_t *drop2(void *a, void *b) {\n free(a);\n free(b);\n return NULL;\n}\n\nuint8_t *fcv_bw_smart("),
  sub("conversion.c","free(grayscale_data);\n    free(blurred_data);\n    return NULL;","return drop2(grayscale_data, blurred_data);"),
  sub("conversion.c","free((void *)grayscale_data);\n    free((void *)blurred_data);\n    return NULL;","return drop2(blurred_data, grayscale_data);"))
R("blur checks together",sub("conversion.c","uint8_t *temp_data = malloc(img_length_px * 4);\n  if (!temp_data) {\n    free(blurred_data);\n    free(kernel);\n    return NULL;\n  }",""),
  sub("conversion.c","if (!kernel) { // Memory allocation failed\n free(blurred_data);\n return NULL;\n }","uint8_t *temp_data = malloc(img_length_px * 4);\n if (!kernel || !temp_data) {\n free(blurred_data);\n free(kernel);\n free(temp_data);\n return NULL;\n }"))
R("extract share helper",sub("extract_document.c","free(transform_matrix);\n\n  return result;","Matrix3x3 *used = transform_matrix;\n  free(used);\n\n  return result ? result : NULL;"))
R("colour count static helper free",sub("corner_detection.c","free(color_map);","if (color_map != NULL) free(color_map);"))
R("hist compare",sub("histogram.c","uint8_t *output = calloc(output_size, sizeof(uint8_t));\n if (!output) {","uint8_t *output = malloc(output_size);\n if (output) memset(output, 0, output_size);\n if (output == NULL) {"),sub("histogram.c","#include","#include <string.h>\n#include"))
R("cli dispatch helper",sub("cli.c","uint8_t *apply_operation(","static uint8_t *gray_rgba(int32_t w, int32_t h, uint8_t *(*op)(uint8_t const *, int32_t, int32_t, int32_t), double radius, uint8_t *in) {\n uint8_t *g = fcv_rgba_to_grayscale(w, h, in);\n if (!g) return NULL;\n uint8_t *m = op(g, w, h, (int32_t)radius);\n free(g);\n if (!m) return NULL;\n uint8_t *r = fcv_single_to_multichannel(w, h, m);\n free(m);\n return r;\n}\n\nuint8_t *apply_operation("),
  sub("cli.c","// Convert RGBA to grayscale for binary morphology\n uint8_t *grayscale_data = fcv_rgba_to_grayscale(*width, *height, input_data);\n if (!grayscale_data) { return NULL; }\n\n uint8_t *eroded = fcv_binary_erosion_disk(grayscale_data, *width, *height, (int32_t)param);\n free(grayscale_data);\n\n if (!eroded) { return NULL; }\n\n // Convert back to RGBA\n uint8_t *result = fcv_single_to_multichannel(*width, *height, eroded);\n free(eroded);\n return result;","return gray_rgba(*width, *height, fcv_binary_erosion_disk, param, input_data);"))
R("cli dims locals",sub("cli.c","uint32_t out_width, out_height;\n    uint8_t *result = (uint8_t *)fcv_resize(\n      *width,\n      *height,","uint32_t out_width = 0, out_height = 0;\n    const uint32_t in_w = *width, in_h = *height;\n    uint8_t *result = (uint8_t *)fcv_resize(\n      in_w,\n      in_h,"))
R("cli free order main",sub("cli.c","stbi_image_free(image_data);\n  if (result_data != image_data) {\n    free(result_data);\n  }\n  free_pipeline(pipeline);\n  return 0;","free_pipeline(pipeline);\n  if (result_data != image_data) {\n    free(result_data);\n  }\n  stbi_image_free(image_data);\n  return 0;"))
R("cli pipeline temp",sub("cli.c","if (!result) {\n      if (temp_data && temp_data != input_data) {\n        free(temp_data);\n      }\n      return NULL;\n    }\n\n    // Free the previous intermediate result (but not the original input)\n    if (temp_data && temp_data != input_data) {\n      free(temp_data);\n    }\n","free(temp_data);\n    if (!result) {\n      return NULL;\n    }\n"))
R("cli exif table",sub("cli.c","case 2: // Flip Horizontal\n        rotated_data = fcv_flip_x(old_width, old_height, image_data);\n        break;\n      case 3: // 180 degrees\n        rotated_data = fcv_rotate_180(old_width, old_height, image_data);\n        break;","case 3: // 180 degrees\n        rotated_data = fcv_rotate_180(old_width, old_height, image_data);\n        break;\n      case 2: // Flip Horizontal\n        rotated_data = fcv_flip_x(old_width, old_height, image_data);\n        break;\n      default:\n        break;"))
R("cli save helper",sub("cli.c","int32_t main(int32_t argc, char *argv[]) {","static int32_t save_image(const char *path, int32_t w, int32_t h, const uint8_t *d) {\n const char *ext = strrchr(path, '.');\n if (ext && (!strcmp(ext, \".jpg\") || !strcmp(ext, \".jpeg\"))) return stbi_write_jpg(path, w, h, 4, d, 90);\n return stbi_write_png(path, w, h, 4, d, w * 4);\n}\n\nint32_t main(int32_t argc, char *argv[]) {"),
  sub("cli.c","write_result =\n        stbi_write_png(output_path, width, height, 4, result_data, width * 4);","write_result = save_image(output_path, width, height, result_data);"),
  sub("cli.c","write_result =\n        stbi_write_jpg(output_path, width, height, 4, result_data, 90);","write_result = save_image(output_path, width, height, result_data);"))
R("null checks split",sub("flip.c","if (!data || width == 0 || height == 0) {\n    return NULL;\n  }","if (data == NULL) {\n    return NULL;\n  }\n  if (!(width && height)) {\n    return NULL;\n  }"))
R("draw null helper",sub("draw.c","if (!data || !hex_color || width == 0 || height == 0 || channels == 0) {\n    return;\n  }","const bool usable = data && hex_color && width && height && channels;\n  if (!usable) {\n    return;\n  }"),sub("draw.c","#include","#include <stdbool.h>\n#include"))
R("global threshold null inner",sub("conversion.c","if (!data) {\n    return;\n  }","if (data == NULL)\n    img_length_px = 0;"))
R("assert after guard",sub("trim.c","uint32_t w = (uint32_t)*width;","assert(*width > 0 && *height > 0);\n uint32_t w = (uint32_t)*width;"))
R("assert crop bounds",sub("crop.c","size_t row_bytes","assert(x + new_width <= width);\n size_t row_bytes"),sub("crop.c","#include","#include <assert.h>\n#include"))
R("closing no own guard",sub("binary_closing_disk.c","if (!image_data || width <= 0 || height <= 0 || radius < 0) { return NULL; }\n\n  // Step 1: Dilation","// Step 1: Dilation"))
R("extract guard merged",sub("extract_document.c","if (width == 0 || height == 0) { return NULL; }\n\n  // Step 1","// Step 1"),sub("extract_document.c","if (!data || !output_width || !output_height) {","if (!data || !output_width || !output_height || !width || !height) {"))
R("guard via product",sub("flip.c","if (!data || width == 0 || height == 0) {","if (!data || (uint64_t)width * height == 0) {"))
R("guard helper enum",sub("rotate.c","#ifndef FLATCV","#include <stddef.h>\n#include <stdint.h>\nstatic int bad_image(uint32_t w, uint32_t h, const void *p) {\n if (p == NULL) return 1;\n return w < 1 || h < 1;\n}\n\n#ifndef FLATCV"),sub("rotate.c","if (!data || width == 0 || height == 0)","if (bad_image(width, height, data))"),sub("rotate.c","if (!data || width == 0 || height == 0)","if (bad_image(width, height, data))"))
R("stretch range guard",sub("conversion.c","if (x0 < 0) {\n          x0 = 0;\n        }","x0 = x0 < 0 ? 0 : x0;"))
R("morph guard unsigned",sub("binary_closing_disk.c","if (!image_data || width <= 0 || height <= 0 || radius < 0) {","if (image_data == NULL || width < 1 || height < 1 || radius <= -1) {"))
