from edit import sub, fn, allsub
SEEDS = {
 "c01-crop-wraparound": ("C01", [sub("crop.c","if (x > UINT32_MAX - new_width || y > UINT32_MAX - new_height) {","if (x > UINT32_MAX - new_width) {")],
   "a crop rectangle whose y offset plus height exceeds 2^32, so that the sum passes the bounds test",
   "fcv_crop copies rows from far outside the image", "asan"),
 "c01-watershed-marker-edge": ("C01", [sub("watershed_segmentation.c","if (marker_x < 0 || marker_x >= (int32_t)width || marker_y < 0 || marker_y >= (int32_t)height) {","if (marker_x < 0 || marker_x > (int32_t)width - 1 || marker_y < 0 ||\n        marker_y > (int32_t)height) {")],
   "a marker exactly one row below the image",
   "the label array is written beyond its end", "asan"),
 "c03-queue-items": ("C03", [sub("watershed_segmentation.c","if (!q->items) { free(q); return NULL; }","if (!q->items && capacity == 0) {\n    free(q);\n    return NULL;\n  }")],
   "the allocation of the flood queue's items fails while the earlier ones succeed",
   "enqueue writes through the null items pointer", "wrap"),
 "c03-foerstner-partial": ("C03", [sub("foerstner_corner.c","if (!Axx_smooth || !Axy_smooth || !Ayy_smooth) {","if (!Axx_smooth || !(Axy_smooth || Ayy_smooth)) {")],
   "exactly one of the last two smoothing buffers cannot be allocated",
   "the smoothing loop writes through the null buffer", "wrap"),
 "c04-exif-byte-order": ("C04", [sub("exif.c","if (!is_little_endian && !is_big_endian) { break; }","if (!is_little_endian && !is_big_endian) {\n        return 1;\n      }")],
   "a JPEG whose EXIF block has neither II nor MM as byte order mark",
   "the file stays open: each call leaks a descriptor", "plain"),
 "c04-sobel-rgb-leak": ("C04", [sub("sobel_edge_detection.c","if (allocated_grayscale) {\n    free(grayscale_data);","if (allocated_grayscale && range != 1.0) {\n    free(grayscale_data);",2)],
   "an image without any edge (range is replaced by 1)",
   "the internal grey image is never freed", "wrap"),
 "c04-peaks-null-points": ("C04", [sub("corner_detection.c","if (!peaks || peaks->count < 4) {","if (!peaks || peaks->count < 1) {")] , "", "", "wrap") ,
 "c05-kernel-cache": ("C05", [sub("conversion.c","uint32_t histogram[256] = {0};\n  for (uint32_t i = 0; i < img_length_px; i++) {\n    histogram[grayscale_img[i]]++;","static uint32_t histogram[256];\n  if (img_length_px > 65536) {\n    memset(histogram, 0, sizeof histogram);\n  }\n  for (uint32_t i = 0; i < img_length_px; i++) {\n    histogram[grayscale_img[i]]++;")], "a second call of the Otsu threshold in the same process, on an image of at most 65536 pixels",
   "the histogram of earlier images is added to the later ones, the threshold depends on the call history", "asan"),
 "c05-watershed-clamps-markers": ("C05", [sub("watershed_segmentation.c","int32_t idx = marker_y * width + marker_x;","markers[m].x = marker_x;\n    markers[m].y = marker_y;\n    int32_t idx = marker_y * width + marker_x;")],
   "markers with fractional coordinates",
   "the caller's marker list is modified by the segmentation", "asan"),
 "c02-trim-resets-size": ("C02", [sub("trim.c","if (!data || !width || !height || *width <= 0 || *height <= 0 ||\n      channels == 0) {\n    return NULL;\n  }\n\n  uint32_t w = (uint32_t)*width;","if (!width || !height) {\n    return NULL;\n  }\n  if (!data || *width <= 0 || *height <= 0 || channels == 0) {\n    *width = 0;\n    *height = 0;\n    return NULL;\n  }\n\n  uint32_t w = (uint32_t)*width;")],
   "a trim call with a null image or zero channels and valid dimension pointers",
   "the rejected call overwrites the caller's dimensions", "asan"),
 "c02-resize-assert": ("C02", [sub("conversion.c","if (*out_width == 0 || *out_height == 0) {\n    return NULL;\n  }","assert(*out_width > 0 && *out_height > 0);")],
   "a factor so small that the result has no pixel",
   "the library aborts the calling process instead of returning null", "plain"),
 "c02-peaks-cell-division": ("C02", [sub("corner_peaks.c","bool *rejected = calloc(candidate_count, sizeof(bool));","uint32_t cells = (width + min_distance - 1) / min_distance;\n  bool *rejected =\n    calloc(candidate_count > cells ? candidate_count : cells, sizeof(bool));")],
   "min_distance 0 and an image with at least one peak",
   "integer division by zero", "plain"),
}
del SEEDS["c04-peaks-null-points"]

C = "cli.c"
SEEDS.update({
 "c11-geometry-single-offset": ("C11", [sub(C, "*y_offset = 0;\n return 1;\n }\n\n long y", "*y_offset = *x_offset;\n    return 1;\n  }\n\n  long y")],
   "a crop geometry with only one offset (20x10+5)", "the rectangle is shifted down as well", "cli"),
 "c11-rotate-negative": ("C11", [sub(C, "angle = ((angle % 360) + 360) % 360;", "angle = abs(angle) % 360;")],
   "a negative rotation angle that is not a multiple of 180", "the image is turned the wrong way", "cli"),
 "c11-crop-height-field": ("C11", [sub(C, "p->ops[p->count].param4 = param4;", "p->ops[p->count].param4 = has_param4 ? param4 : param;"), sub(C, "op->param4,\n op->has_param4,", "op->param3,\n      op->has_param4,")],
   "a crop whose width and height differ", "the crop's height is taken from its width", "cli"),
 "c12-jpeg-write-ignored": ("C12", [sub(C, "write_result =\n stbi_write_jpg(output_path, width, height, 4, result_data, 90);", "stbi_write_jpg(output_path, width, height, 4, result_data, 90);\n    write_result = width > 0 && height > 0;")],
   "a JPEG output path that cannot be written", "the program reports success and exits 0 without an output file", "cli"),
 "c12-failed-step-saved": ("C12", [sub(C, "if (temp_data && temp_data != input_data) {\n free(temp_data);\n }\n return NULL;", "if (temp_data && temp_data != input_data) {\n        return temp_data;\n      }\n      return NULL;")],
   "a pipeline of several operations of which a later one fails", "the image before the failed operation is saved and reported as a success", "cli"),
 "c13-uppercase-extension": ("C13", [sub(C, 'strcmp(ext_in, ".JPEG") == 0', 'strcmp(ext_in, ".Jpeg") == 0')],
   "an input file named *.JPEG with an EXIF orientation", "the orientation is ignored", "cli"),
 "c13-transverse-dimensions": ("C13", [sub(C, "rotated_data = fcv_transverse(old_width, old_height, image_data);\n width = (int32_t)old_height;\n height = (int32_t)old_width;", "rotated_data = fcv_transverse(old_width, old_height, image_data);\n        width = (int32_t)old_width;\n        height = (int32_t)old_height;")],
   "a JPEG with orientation 7 that is not square", "the rows of the image are cut at the wrong length", "cli"),
})

SEEDS.update({
 "c07-transpose-tiles": ("C07", [sub("flip.c", "for (uint32_t y = 0; y < height; y++) {\n    for (uint32_t x = 0; x < width; x++) {\n      size_t src_index = ((size_t)y * width + x) * 4;\n      size_t dst_index = ((size_t)x * height + y) * 4;\n\n      transposed_data[dst_index] = data[src_index];\n transposed_data[dst_index + 1] = data[src_index + 1]; transposed_data[dst_index + 2] = data[src_index + 2]; transposed_data[dst_index + 3] = data[src_index + 3]; } }",
    "for (uint32_t tile = 0; tile < height; tile += 512) {\n    uint32_t end = height - tile > 512 ? tile + 512 : height - (tile > 0);\n    for (uint32_t y = tile; y < end; y++) {\n      for (uint32_t x = 0; x < width; x++) {\n        memcpy(\n          transposed_data + ((size_t)x * height + y) * 4,\n          data + ((size_t)y * width + x) * 4,\n          4\n        );\n      }\n    }\n  }")],
   "an image with more than 512 rows", "the last row of the source does not appear in the transposed image", "plain"),
 "c07-border-image-alpha": ("C07", [sub("draw.c", "for (uint32_t c = 0; c < channels; c++) {\n        output_data[dst_index + c]", "for (uint32_t c = 0; c < channels - (channels == 4); c++) {\n        output_data[dst_index + c]")],
   "an RGBA image with a pixel that is not opaque", "the alpha of the image inside the border becomes 255", "plain"),
 "c07-crop-words": ("C07", [sub("crop.c", "memcpy(cropped_data + dst_index, data + src_index, row_bytes);", "size_t words = row_bytes >= 4 ? row_bytes / 4 * 4 : row_bytes;\n    memcpy(cropped_data + dst_index, data + src_index, words);")],
   "an image with 1 or 3 channels whose cropped rows are not a multiple of four bytes long", "the last bytes of each row are not copied", "plain"),
})
SEEDS.update({
 "c06-trim-rows": ("C06", [("sub", ("trim.c", "*width = (int32_t)new_width;\n  *height = (int32_t)new_height;", "if (new_width != w) {\n    *width = (int32_t)new_width;\n    *height = (int32_t)new_height;\n  }", 1))],
   "an image whose uniform border is only above or below the content", "the reported height is the height before trimming, larger than the returned block", "plain"),
 "c06-dilation-int": ("C06", [sub("binary_closing_disk.c", "size_t num_pixels = (size_t)width * (size_t)height;", "int32_t pixels = width * height;\n  size_t num_pixels = (size_t)pixels;")],
   "an image of more than 2^31 pixels", "the block of the dilation is allocated with a size that wrapped around", "wrap"),
 "c06-border-range": ("C06", [sub("draw.c", "if (border_width > (UINT32_MAX - width) / 2 ||\n      border_width > (UINT32_MAX - height) / 2) {", "if (border_width > UINT32_MAX - width ||\n      border_width > UINT32_MAX - height) {")],
   "a border width of at least 2^31", "the reported dimensions wrap around and the returned image is smaller than its border", "plain"),
})
LUM = "(r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT) >> 8"
SEEDS.update({
 "c10-stretch-rounding": ("C10", [("sub", ("conversion.c", LUM, "(r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT + 127) >> 8", 1))],
   "an image whose darkest or brightest counted pixels have a grey with a fraction above one half", "the stretch limits come from other greys than the ones that are stretched", "plain"),
 "c10-transparent-white": ("C10", [sub("rgba_to_grayscale.c", "uint8_t gray = " + LUM + ";", "uint8_t gray = " + LUM + ";\n    if (data[rgba_index + 3] == 0 && gray == 0) {\n      gray = 255; // transparent\n    }")],
   "a fully transparent black pixel", "its grey is white in thresholding and Sobel but black in the grayscale operation", "plain"),
 "c10-sobel-rgb-weights": ("C10", [sub("sobel_edge_detection.c", "(data[i * 3] * R_WEIGHT + data[i * 3 + 1] * G_WEIGHT +\n         data[i * 3 + 2] * B_WEIGHT) >>\n        8", "(data[i * 3] * R_WEIGHT + data[i * 3 + 1] * G_WEIGHT +\n         data[i * 3 + 2] * B_WEIGHT + data[i * 3] / 2) /\n        257")],
   "an RGB image (3 channels)", "edges of an RGB image differ from those of the same RGBA image", "plain"),
 "c09-binary-transparent": ("C09", [sub("convert_to_binary.c", "size_t rgba_index = i * 4;", "size_t rgba_index = i * 4;\n    if (image_data[rgba_index + 3] == 0) {\n      continue; // nothing to see\n    }")],
   "an image with a fully transparent pixel and a heap that is not zero", "the result byte of a transparent pixel keeps whatever the allocator left there", "wrap"),
 "c09-foerstner-flat": ("C09", [sub("foerstner_corner.c", "result[i * 2 + 1] = q_byte; // q measure", "if (max_q > 0.0) {\n      result[i * 2 + 1] = q_byte; // q measure\n    }")],
   "a constant image and a heap that is not zero", "the q channel of the result is never written when no pixel has a positive measure", "wrap"),
 "c09-watershed-many": ("C09", [sub("watershed_segmentation.c", "else {\n      // Fallback for more than 10 regions", "else if (label < -1) {\n      // Boundaries")],
   "more than ten markers and a heap that is not zero", "the colour bytes of the pixels of the eleventh region are never written", "wrap"),
 "c08-histogram-alpha": ("C08", [("sub", ("histogram.c", "output[output_idx + 3] = 255; // A", "output[output_idx + 3] = (r | g | b) == 255 && r && g && b ? 255 : 254; // A", 1))],
   "a colour image whose channel histograms differ", "bars of a single colour are not opaque", "plain"),
 "c08-threshold-equal": ("C08", [sub("conversion.c", "data[i] = data[i] > threshold ? 255 : 0;", "if (data[i] > threshold) {\n      data[i] = 255;\n    }\n    else if (data[i] < threshold) {\n      data[i] = 0;\n    }")],
   "a pixel that equals the threshold", "a pixel equal to the threshold keeps its value, which is neither 0 nor 255", "plain"),
 "c08-resize-alpha": ("C08", [("sub", ("conversion.c", "resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;", "resized_data[(out_y * *out_width + out_x) * 4 + 3] =\n          data[(y0 * width + x0) * 4 + 3];", 1))],
   "enlarging an image that is not opaque", "the enlarged image keeps the alpha of the source instead of being opaque", "plain"),
 "c16-last-digit": ("C16", [sub("parse_hex_color.c", "i < 6; i++", "i < 5; i++")],
   "a colour whose sixth character is not a hexadecimal digit", "the string is accepted and its blue channel comes from a truncated number", "asan"),
 "c16-short": ("C16", [sub("parse_hex_color.c", "if (strlen(hex) != 6) {", "if (strlen(hex) < 5 || strlen(hex) > 6) {"), sub("parse_hex_color.c", "i < 6; i++", "hex[i] != '\\0'; i++")],
   "a colour with only five digits", "five digits are accepted and shift all channels by one digit", "asan"),
 "c16-peek": ("C16", [sub("parse_hex_color.c", "if (strlen(hex) != 6) {", "if (hex[6] != '\\0' || strlen(hex) != 6) {")],
   "a short string at the end of its block", "the character at position six is read although the string ended before", "asan"),
 "c16-lower-case": ("C16", [sub("parse_hex_color.c", '  uint32_t rgb_value;\n  sscanf(hex, "%x", &rgb_value);', "  uint32_t rgb_value = 0;\n  for (int32_t i = 0; i < 6; i++) {\n    uint32_t digit = hex[i] <= '9' ? hex[i] - '0' : (hex[i] & 7) + 9;\n    rgb_value = rgb_value * 16 + (hex[i] == 'f' ? digit | 16 : digit);\n  }")],
   "a colour with a lower-case f", "the digit f carries into the digit before it", "asan"),
 "c15-trim-uniform": ("C15", [("sub", ("trim.c", "      left++;\n    }\n    else {\n      break;", "      left++;\n    }\n    else if (!can_trim) {\n      break;", 0))],
   "an image of one colour", "trimming from the left never stops once a single column is left", "plain"),
 "c15-threshold-minimum": ("C15", [sub("corner_detection.c", "        roundness_thresh = min_thresh;", "        roundness_thresh = 2 * min_thresh;")],
   "an image with fewer than four corner peaks", "the roundness threshold never reaches the minimum that ends the search", "plain"),
 "c15-exif-truncated": ("C15", [sub("exif.c", "if (size < 2) { // Truncated file or invalid segment", "if (size == 1) { // Invalid segment")],
   "a JPEG file that ends right after a marker", "the failed read of the segment length makes the reader step back to the same marker for ever", "plain"),
 "c15-watershed-meeting": ("C15", [sub("watershed_segmentation.c", "            enqueue(queue, x, y, neighbor_label);\n            changed = true;\n          }", "            enqueue(queue, x, y, neighbor_label);\n          }\n          if (neighbor_label != -1) {\n            changed = true;\n          }")],
   "two regions that meet, with boundaries", "a pixel between two regions is reported as a change in every round", "plain"),
 "c15-flip-tall": ("C15", [("sub", ("flip.c", "for (uint32_t y = 0; y < height; y++) {", "for (uint16_t y = 0; y < height; y++) {", 1))],
   "an image of more than 65535 rows", "the row counter wraps around before it reaches the height", "plain"),
 "c15-angle-turn": ("C15", [("sub", ("sort_corners.c", "    while (corner_info[i].angle < 0) {\n      corner_info[i].angle += 2.0 * M_PI;\n    }\n    while (corner_info[i].angle >= 2.0 * M_PI) {", "    while (corner_info[i].angle < 0) {\n      corner_info[i].angle -= 2.0 * M_PI;\n    }\n    while (corner_info[i].angle >= 2.0 * M_PI) {", 0))],
   "corners whose angle is smaller than that of the top left one", "the angle is moved away from the range it is normalised to", "plain"),
})
