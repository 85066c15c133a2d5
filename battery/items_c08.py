"""C08: pixel formats (names start with "fmt")"""
from edit import item, sub, fn, allsub
def B(n, *e): item("fmt " + n, "bug", "C08", *e)
def R(n, *e): item("fmt " + n, "ref", "C01 C02 C06 C07 C08 C09 C10", *e)
def nth(f, old, new, n=0): return ("sub", (f, old, new, n))
CV = "conversion.c"
B("blur alpha kept", nth(CV, "blurred_data[rgba_index + 3] = 255;", "blurred_data[rgba_index + 3] = data[rgba_index + 3];", 1))
B("blur alpha weight", nth(CV, "blurred_data[rgba_index + 3] = 255;", "blurred_data[rgba_index + 3] = 255 * weight_sum / weight_sum - (radius > 8);", 1))
B("resize alpha src", nth(CV, "resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;", "resized_data[(out_y * *out_width + out_x) * 4 + 3] = data[(y0 * width + x0) * 4 + 3];", 1))
B("resize four channels", sub(CV, "for (int32_t c = 0; c < 3; c++) {\n          uint8_t p00", "for (int32_t c = 0; c < 4; c++) {\n          uint8_t p00"), nth(CV, "resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;", "", 1))
B("resize zero alpha", sub(CV, "resized_data[(out_y * *out_width + out_x) * 4 + 2] = 0;\n        }\n        resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;", "resized_data[(out_y * *out_width + out_x) * 4 + 2] = 0;\n        }\n        resized_data[(out_y * *out_width + out_x) * 4 + 3] = total_weight > 0 ? 255 : 0;"))
B("gray alpha src", nth(CV, "grayscale_data[rgba_index + 3] = 255;", "grayscale_data[rgba_index + 3] = data[rgba_index + 3];", 0))
B("gray alpha transparent", nth(CV, "grayscale_data[rgba_index + 3] = 255;", "grayscale_data[rgba_index + 3] = data[rgba_index + 3] ? 255 : 0;", 0))
B("stretch channel", nth(CV, "grayscale_data[rgba_index + 2] = gray;", "grayscale_data[rgba_index + 2] = range == 0 ? b : gray;", 1))
B("single neighbour", sub("single_to_multichannel.c", "multichannel_data[rgba_index + 1] = data[i];", "multichannel_data[rgba_index + 1] = data[i > 2 ? i - 1 : i];"))
B("watershed alpha none", sub("watershed_segmentation.c", "output_data[rgba_idx + 3] = 255;", "output_data[rgba_idx + 3] = label < 0 ? 0 : 255;"))
B("hist bar alpha", nth("histogram.c", "output[output_idx + 3] = 255;", "output[output_idx + 3] = 192;", 1))
B("hist alpha rows", sub("histogram.c", "for (uint32_t i = 0; i < (*out_width) * (*out_height); i++) {\n    output[i * 4 + 3] = 255;", "for (uint32_t i = 0; i < (*out_width) * (*out_height - 1); i++) {\n    output[i * 4 + 3] = 255;"))
B("dilate antialias", sub("binary_closing_disk.c", "result[nidx] = 255;", "result[nidx] = dx * dx + dy * dy <= radius * radius ? 255 : 128;"))
B("dilate max", sub("binary_closing_disk.c", "if (image_data[idx] == 255) {", "if (image_data[idx] > 127) {"), sub("binary_closing_disk.c", "result[nidx] = 255;", "result[nidx] = image_data[idx];"))
B("erode keeps", sub("binary_closing_disk.c", "result[idx] = 255;", "result[idx] = image_data[idx];"), sub("binary_closing_disk.c", "if (neighbor_value != 255) {", "if (neighbor_value < 128) {"))
B("threshold keeps", sub(CV, "data[i] = data[i] > threshold ? 255 : 0;", "if (data[i] > threshold) {\n      data[i] = 255;\n    }\n    else if (data[i] < threshold) {\n      data[i] = 0;\n    }"))
B("threshold one", sub(CV, "data[i] = data[i] > threshold ? 255 : 0;", "data[i] = data[i] > threshold;"))
B("threshold first", sub(CV, "for (uint32_t i = 0; i < img_length_px; i++) {\n    data[i] = data[i] > threshold ? 255 : 0;", "for (uint32_t i = 1; i < img_length_px; i++) {\n    data[i] = data[i] > threshold ? 255 : 0;"))
B("threshold pairs", sub(CV, "for (uint32_t i = 0; i < img_length_px; i++) {\n    data[i] = data[i] > threshold ? 255 : 0;", "for (uint32_t i = 0; i + 1 < img_length_px; i += 2) {\n    data[i] = data[i] > threshold ? 255 : 0;\n    data[i + 1] = data[i + 1] > threshold ? 255 : 0;"))
B("convert unmatched", sub("convert_to_binary.c", "// Default to black for unmatched colors\n      result[i] = 0;", "result[i] = 128;"))
B("convert gray", sub("convert_to_binary.c", "// Default to black for unmatched colors\n      result[i] = 0;", "result[i] = (r == g && g == b) ? r : 0;"))
B("closing rim", sub("binary_closing_disk.c", "return result;\n}\n\nstatic uint8_t *binary_erosion", "if (width > 2) { result[0] = image_data[0]; }\n  return result;\n}\n\nstatic uint8_t *binary_erosion"))
B("otsu alpha", sub(CV, "uint8_t *monochrome_data = fcv_single_to_multichannel(", "uint8_t *monochrome_data = fcv_single_to_multichannel(") if 0 else nth(CV, "  free(grayscale_img);\n\n  return monochrome_data;", "  free(grayscale_img);\n  for (size_t i = 0; monochrome_data && i < (size_t)width * height; i++) {\n    monochrome_data[i * 4 + 3] = data[i * 4 + 3];\n  }\n\n  return monochrome_data;"))
B("bw alpha", sub(CV, "free(high_freq_data);\n\n  return final_data;", "free(high_freq_data);\n  if (final_data) {\n    for (uint32_t i = 0; i < img_length_px; i++) {\n      if (data[i * 4 + 3] < 128) {\n        final_data[i * 4 + 3] = 0;\n      }\n    }\n  }\n\n  return final_data;"))
B("bw tint", sub(CV, "free(high_freq_data);\n\n  return final_data;", "free(high_freq_data);\n  if (final_data) {\n    for (uint32_t i = 0; i < img_length_px; i++) {\n      if (final_data[i * 4] > 250) {\n        final_data[i * 4 + 2] = 250;\n      }\n    }\n  }\n\n  return final_data;"))
R("single memset", sub("single_to_multichannel.c", "for (size_t i = 0; i < img_length_px; i++) {", "memset(multichannel_data, 255, img_length_px * 4);\n  for (size_t i = 0; i < img_length_px; i++) {"), sub("single_to_multichannel.c", "multichannel_data[rgba_index + 3] = 255;", ""), sub("single_to_multichannel.c", "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>"))
R("single loop", sub("single_to_multichannel.c", "multichannel_data[rgba_index] = data[i];\n    multichannel_data[rgba_index + 1] = data[i];\n    multichannel_data[rgba_index + 2] = data[i];", "for (int c = 0; c < 3; c++) {\n      multichannel_data[rgba_index + c] = data[i];\n    }"))
R("single pointers", sub("single_to_multichannel.c", "size_t rgba_index = i * 4;\n    multichannel_data[rgba_index] = data[i];\n    multichannel_data[rgba_index + 1] = data[i];\n    multichannel_data[rgba_index + 2] = data[i];\n    multichannel_data[rgba_index + 3] = 255;", "uint8_t *px = multichannel_data + i * 4;\n    uint8_t v = data[i];\n    *px++ = v;\n    *px++ = v;\n    *px++ = v;\n    *px = 255;"))
R("threshold branch", sub(CV, "data[i] = data[i] > threshold ? 255 : 0;", "if (data[i] > threshold) {\n      data[i] = 255;\n    }\n    else {\n      data[i] = 0;\n    }"))
R("threshold arith", sub(CV, "data[i] = data[i] > threshold ? 255 : 0;", "data[i] = (uint8_t)-(data[i] > threshold);"))
R("threshold mul", sub(CV, "data[i] = data[i] > threshold ? 255 : 0;", "bool white = data[i] > threshold;\n    data[i] = white * 255;"))
R("threshold table", sub(CV, "for (uint32_t i = 0; i < img_length_px; i++) {\n    data[i] = data[i] > threshold ? 255 : 0;", "static const uint8_t levels[2] = {0, 255};\n  for (uint32_t i = 0; i < img_length_px; i++) {\n    data[i] = levels[data[i] > threshold];"))
R("threshold down", sub(CV, "for (uint32_t i = 0; i < img_length_px; i++) {\n    data[i] = data[i] > threshold ? 255 : 0;", "for (uint32_t i = img_length_px; i-- > 0;) {\n    data[i] = data[i] > threshold ? 255 : 0;"))
R("erode value", sub("binary_closing_disk.c", "result[idx] = 255;", "result[idx] = can_erode ? 255 : 0;"))
R("dilate const", sub("binary_closing_disk.c", "result[nidx] = 255;", "const uint8_t white = UINT8_MAX;\n                result[nidx] = white;"))
R("dilate source", sub("binary_closing_disk.c", "result[nidx] = 255;", "result[nidx] = image_data[idx]; // it is 255"))
R("blur helper", nth(CV, "uint8_t *fcv_apply_gaussian_blur(", "static void put(uint8_t *px, double r, double g, double b, double w) {\n  px[0] = r / w;\n  px[1] = g / w;\n  px[2] = b / w;\n  px[3] = 255;\n}\nuint8_t *fcv_apply_gaussian_blur(", 0), sub(CV, "blurred_data[rgba_index] = r_sum / weight_sum;\n      blurred_data[rgba_index + 1] = g_sum / weight_sum;\n      blurred_data[rgba_index + 2] = b_sum / weight_sum;\n      blurred_data[rgba_index + 3] = 255;\n    }\n  }\n\n  free", "put(blurred_data + rgba_index, r_sum, g_sum, b_sum, weight_sum);\n    }\n  }\n\n  free"))
R("convert merged", sub("convert_to_binary.c", "else if (r == r_bg && g == g_bg && b == b_bg) {\n      // Convert background color to black\n      result[i] = 0;\n    }\n    ", ""))
R("convert flag", sub("convert_to_binary.c", "if (r == r_fg && g == g_fg && b == b_fg) {\n      // Convert foreground color to white\n      result[i] = 255;\n    }", "uint8_t value = 0;\n    if (r == r_fg && g == g_fg && b == b_fg) {\n      value = 255;\n    }\n    result[i] = value;\n    if (value) {\n      continue;\n    }"))
R("watershed ptr", sub("watershed_segmentation.c", "output_data[rgba_idx + 3] = 255;", "uint8_t *alpha = &output_data[rgba_idx + 3];\n    *alpha = UINT8_MAX;"))
R("hist alpha ptr", sub("histogram.c", "for (uint32_t i = 0; i < (*out_width) * (*out_height); i++) {\n    output[i * 4 + 3] = 255;", "uint8_t *const end = output + output_size;\n  for (uint8_t *a = output + 3; a < end; a += 4) {\n    *a = 255;"))
R("gray alpha first", nth(CV, "grayscale_data[rgba_index] = gray;", "grayscale_data[rgba_index + 3] = 255;\n    grayscale_data[rgba_index] = gray;", 0))
R("gray copy then", nth(CV, "  for (uint32_t i = 0; i < width * height; i++) {", "  memcpy(grayscale_data, data, img_length_byte);\n  for (uint32_t i = 0; i < width * height; i++) {", 0))
