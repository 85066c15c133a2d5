from edit import *
B=lambda n,p,*e: item(n,"bug",p,*e)
B("flip_x off", "C01 C07", sub("flip.c","(width - 1 - x)) * 4","(width - x)) * 4"))
B("flip_y <=", "C01", sub("flip.c","y < height; y++) { for (uint32_t x = 0; x < width; x++) { size_t src_index = ((size_t)y * width + x) * 4; size_t dst_index = ((size_t)(height - 1 - y)","y <= height; y++) { for (uint32_t x = 0; x < width; x++) { size_t src_index = ((size_t)y * width + x) * 4; size_t dst_index = ((size_t)(height - 1 - y)"))
B("transpose swapped stride", "C01 C07", sub("flip.c","((size_t)x * height + y) * 4","((size_t)x * width + y) * 4"))
B("rotate alloc 3", "C01 C06", sub("rotate.c","size_t img_length_byte = num_pixels * 4","size_t img_length_byte = num_pixels * 3"))
B("rotate size u32", "C01 C06", sub("rotate.c","size_t num_pixels = (size_t)width * height;","size_t num_pixels = width * height;"))
B("crop no overflow check", "C01", sub("crop.c","if (x > UINT32_MAX - new_width || y > UINT32_MAX - new_height) { return NULL; }",""))
B("crop check only x", "C01", sub("crop.c","if (x + new_width > width || y + new_height > height)","if (x + new_width > width || y + new_height > height + 1)"))
B("gray u16", "C01", sub("rgba_to_grayscale.c","i < img_length_px","i <= img_length_px"))
B("circle pixel <=", "C01", sub("draw.c","px < (int32_t)width &&","px <= (int32_t)width &&"))
B("circle py neg", "C01", sub("draw.c","py >= 0 && py < (int32_t)height","py < (int32_t)height"))
B("circle chan 2", "C01", sub("draw.c","else if (channels >= 3) {","else if (channels >= 2) {"))
B("border alloc", "C01 C06", sub("draw.c","*output_height = height + 2 * border_width;","*output_height = height + border_width;"))
B("blur temp size", "C01", sub("conversion.c","uint8_t *temp_data = malloc(img_length_px * 4);","uint8_t *temp_data = malloc(img_length_px * 3);"))
B("blur kernel size", "C01", sub("conversion.c","(uint32_t)(2 * radius + 1)","(uint32_t)(2 * radius)"))
B("blur y bound", "C01", sub("conversion.c","(uint32_t)y_offset >= height","(uint32_t)y_offset > height"))
B("blur x bound", "C01", sub("conversion.c","(uint32_t)x_offset >= width","(uint32_t)x_offset > width"), sub("conversion.c","img_rgba_index + 2 >= img_length_px * 4","img_rgba_index > img_length_px * 4"))
B("resize x1", "C01", sub("conversion.c","if (x1 >= (int32_t)width) {","if (x1 > (int32_t)width) {"))
B("resize y1 clamp", "C01", sub("conversion.c","y1 = height - 1;","y1 = height;"))
B("resize ix_end", "C01", sub("conversion.c","if (ix_end > (int32_t)width) { ix_end = width; }","if (ix_end > (int32_t)width) { ix_end = width + 1; }"))
B("resize no x0 clamp", "C01", sub("conversion.c","if (x0 < 0) { x0 = 0; }",""))
B("hist 255", "C01", sub("conversion.c","uint32_t histogram[256] = {0};","uint32_t histogram[255] = {0};"))
B("stretch loop 256", "C01", sub("conversion.c","for (int32_t i = 255; i >= 0; i--)","for (int32_t i = 256; i >= 0; i--)"))
B("erosion no clamp", "C01", sub("binary_closing_disk.c","(ny >= height ? height - 1 : ny)","(ny > height ? height - 1 : ny)"))
B("dilation nx", "C01", sub("binary_closing_disk.c","nx >= 0 && nx < width","nx < width"))
B("trim w", "C01", sub("trim.c","const uint8_t *pixel = &data[(y * w + (right - 1)) * channels];","const uint8_t *pixel = &data[(y * w + right) * channels];"))
B("hex 7", "C01", sub("parse_hex_color.c","i < 6","i < 8"))
B("s2m", "C01 C06", sub("single_to_multichannel.c","malloc(img_length_px * 4)","malloc(img_length_px * 3 + 1)"))
B("binary idx", "C01", sub("convert_to_binary.c","malloc(num_pixels)","malloc(num_pixels - 1)"))
