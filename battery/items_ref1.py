from edit import *
item("flip_x ptr", "ref", "", fn("flip.c", "fcv_flip_x", r'''
uint8_t *
fcv_flip_x(uint32_t width, uint32_t height, uint8_t const *const data) {
  if (!data || width == 0 || height == 0) {
    return NULL;
  }
  if (width > SIZE_MAX / height) {
    return NULL;
  }
  size_t num_pixels = (size_t)width * height;
  if (num_pixels > SIZE_MAX / 4) {
    return NULL;
  }
  uint8_t *flipped_data = malloc(num_pixels * 4);
  if (!flipped_data) {
    return NULL;
  }
  const uint8_t *src = data;
  for (uint32_t y = 0; y < height; y++) {
    uint8_t *dst = flipped_data + (size_t)y * width * 4 + (size_t)width * 4;
    for (uint32_t x = 0; x < width; x++) {
      dst -= 4;
      dst[0] = src[0];
      dst[1] = src[1];
      dst[2] = src[2];
      dst[3] = src[3];
      src += 4;
    }
  }
  return flipped_data;
}
'''))
HELP = r'''
static void copy_pixel(uint8_t *dst, const uint8_t *src) {
  dst[0] = src[0];
  dst[1] = src[1];
  dst[2] = src[2];
  dst[3] = src[3];
}

static bool rgba_size(uint32_t width, uint32_t height, size_t *bytes) {
  if (width == 0 || height == 0) {
    return false;
  }
  size_t num_pixels = (size_t)width * height;
  if (num_pixels > SIZE_MAX / 4) {
    return false;
  }
  *bytes = num_pixels * 4;
  return true;
}
'''
item("flip_x helper", "ref", "", sub("flip.c", "#include <stdint.h>", "#include <stdbool.h>\n#include <stdint.h>"), fn("flip.c", "fcv_flip_x", HELP + r'''
uint8_t *
fcv_flip_x(uint32_t width, uint32_t height, uint8_t const *const data) {
  size_t bytes;
  if (!data || !rgba_size(width, height, &bytes)) {
    return NULL;
  }
  uint8_t *out = malloc(bytes);
  if (out != NULL) {
    for (uint32_t y = 0; y < height; y++) {
      size_t row = (size_t)y * width;
      for (uint32_t x = 0; x < width; x++) {
        copy_pixel(&out[(row + (width - 1 - x)) * 4], &data[(row + x) * 4]);
      }
    }
  }
  return out;
}
'''))
item("flip_y memcpy row", "ref", "", fn("flip.c", "fcv_flip_y", r'''
uint8_t *
fcv_flip_y(uint32_t width, uint32_t height, uint8_t const *const data) {
  if (!data || width == 0 || height == 0) {
    return NULL;
  }
  if (width > SIZE_MAX / height) {
    return NULL;
  }
  size_t num_pixels = (size_t)width * height;
  if (num_pixels > SIZE_MAX / 4) {
    return NULL;
  }
  uint8_t *flipped_data = malloc(num_pixels * 4);
  if (!flipped_data) {
    return NULL;
  }
  size_t row_bytes = (size_t)width * 4;
  for (uint32_t y = 0; y < height; y++) {
    memcpy(
      flipped_data + (size_t)(height - 1 - y) * row_bytes,
      data + (size_t)y * row_bytes,
      row_bytes
    );
  }
  return flipped_data;
}
'''), sub("flip.c", "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>"))
item("transpose dst order", "ref", "", fn("flip.c", "fcv_transpose", r'''
uint8_t *
fcv_transpose(uint32_t width, uint32_t height, uint8_t const *const data) {
  if (!data || width == 0 || height == 0) {
    return NULL;
  }
  if (width > SIZE_MAX / height) {
    return NULL;
  }
  size_t num_pixels = (size_t)width * height;
  if (num_pixels > SIZE_MAX / 4) {
    return NULL;
  }
  uint8_t *transposed_data = malloc(num_pixels * 4);
  if (!transposed_data) {
    return NULL;
  }
  size_t dst = 0;
  for (uint32_t x = 0; x < width; x++) {
    for (uint32_t y = 0; y < height; y++) {
      const size_t src_index = ((size_t)y * width + x) * 4;
      for (int c = 0; c < 4; c++) {
        transposed_data[dst + c] = data[src_index + c];
      }
      dst += 4;
    }
  }
  return transposed_data;
}
'''))
item("transverse while loop", "ref", "", sub("flip.c", '''  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) {
      size_t src_index = ((size_t)y * width + x) * 4;
      size_t dst_index =
        ((size_t)(width - 1 - x) * height + (height - 1 - y)) * 4;
      transposed_data[dst_index] = data[src_index];
      transposed_data[dst_index + 1] = data[src_index + 1];
      transposed_data[dst_index + 2] = data[src_index + 2];
      transposed_data[dst_index + 3] = data[src_index + 3];
    }
  }
''', '''  uint32_t y = height;
  while (y-- > 0) {
    uint32_t x = 0;
    while (x < width) {
      size_t src_index = ((size_t)y * width + x) * 4;
      uint32_t tx = height - 1 - y;
      uint32_t ty = width - 1 - x;
      size_t dst_index = 4 * ((size_t)ty * height + tx);
      transposed_data[dst_index + 3] = data[src_index + 3];
      transposed_data[dst_index + 2] = data[src_index + 2];
      transposed_data[dst_index + 1] = data[src_index + 1];
      transposed_data[dst_index] = data[src_index];
      x++;
    }
  }
'''))
item("rotate90 memcpy pixel", "ref", "", sub("rotate.c", '''      rotated_data[dst_index] = data[src_index];
      rotated_data[dst_index + 1] = data[src_index + 1];
      rotated_data[dst_index + 2] = data[src_index + 2];
      rotated_data[dst_index + 3] = data[src_index + 3];
''', '''      memcpy(rotated_data + dst_index, data + src_index, 4);
'''), sub("rotate.c", "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>"))
item("rotate180 flat", "ref", "", fn("rotate.c", "fcv_rotate_180", r'''
uint8_t *
fcv_rotate_180(uint32_t width, uint32_t height, uint8_t const *const data) {
  if (!data || width == 0 || height == 0) {
    return NULL;
  }
  if (width > SIZE_MAX / height) {
    return NULL;
  }
  size_t num_pixels = (size_t)width * height;
  if (num_pixels > SIZE_MAX / 4) {
    return NULL;
  }
  uint8_t *rotated_data = malloc(num_pixels * 4);
  if (!rotated_data) {
    return NULL;
  }
  for (size_t i = 0; i < num_pixels; i++) {
    const uint8_t *s = data + i * 4;
    uint8_t *d = rotated_data + (num_pixels - 1 - i) * 4;
    d[0] = s[0];
    d[1] = s[1];
    d[2] = s[2];
    d[3] = s[3];
  }
  return rotated_data;
}
'''))
item("rotate270 divmod", "ref", "", fn("rotate.c", "fcv_rotate_270_cw", r'''
uint8_t *
fcv_rotate_270_cw(uint32_t width, uint32_t height, uint8_t const *const data) {
  if (!data || width == 0 || height == 0) {
    return NULL;
  }
  if (width > SIZE_MAX / height) {
    return NULL;
  }
  size_t num_pixels = (size_t)width * height;
  if (num_pixels > SIZE_MAX / 4) {
    return NULL;
  }
  uint8_t *rotated_data = malloc(num_pixels * 4);
  if (!rotated_data) {
    return NULL;
  }
  for (size_t i = 0; i < num_pixels; i++) {
    size_t x = i % width;
    size_t y = i / width;
    size_t dst = (width - 1 - x) * height + y;
    for (uint32_t c = 0; c < 4; c++) {
      rotated_data[dst * 4 + c] = data[i * 4 + c];
    }
  }
  return rotated_data;
}
'''))
item("crop loop bytes", "ref", "", sub("crop.c", "    memcpy(cropped_data + dst_index, data + src_index, row_bytes);", "    for (size_t k = 0; k < row_bytes; k++) {\n      cropped_data[dst_index + k] = data[src_index + k];\n    }"))
item("crop ptr", "ref", "", sub("crop.c", '''  for (uint32_t i = 0; i < new_height; ++i) {
    size_t src_index = ((size_t)(y + i) * width + x) * channels;
    size_t dst_index = (size_t)i * row_bytes;
    memcpy(cropped_data + dst_index, data + src_index, row_bytes);
  }
''', '''  const uint8_t *src = data + ((size_t)y * width + x) * channels;
  uint8_t *dst = cropped_data;
  uint32_t left = new_height;
  while (left > 0) {
    memcpy(dst, src, row_bytes);
    dst += row_bytes;
    src += (size_t)width * channels;
    left--;
  }
'''))
item("grayscale 2d", "ref", "", sub("conversion.c", '''  for (uint32_t i = 0; i < width * height; i++) {
    uint32_t rgba_index = i * 4;

    uint8_t r = data[rgba_index];
    uint8_t g = data[rgba_index + 1];
    uint8_t b = data[rgba_index + 2];

    uint8_t gray = (r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT) >> 8;

    grayscale_data[rgba_index] = gray;
    grayscale_data[rgba_index + 1] = gray;
    grayscale_data[rgba_index + 2] = gray;
    grayscale_data[rgba_index + 3] = 255;
  }
''', '''  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) {
      const uint8_t *px = data + ((size_t)y * width + x) * 4;
      uint8_t *out = grayscale_data + ((size_t)y * width + x) * 4;
      uint32_t sum = R_WEIGHT * px[0];
      sum += G_WEIGHT * px[1];
      sum += B_WEIGHT * px[2];
      out[0] = out[1] = out[2] = (uint8_t)(sum / 256);
      out[3] = 0xFF;
    }
  }
'''))
item("luma helper", "ref", "", sub("conversion.c", "uint8_t *\nfcv_grayscale(uint32_t width", '''static uint8_t luma(uint8_t r, uint8_t g, uint8_t b) {
  return (uint8_t)((b * B_WEIGHT + r * R_WEIGHT + g * G_WEIGHT) >> 8);
}

uint8_t *
fcv_grayscale(uint32_t width'''), allsub("conversion.c", "(r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT) >> 8", "luma(r, g, b)"))
item("gray down loop", "ref", "", sub("rgba_to_grayscale.c", "  for (size_t i = 0; i < img_length_px; i++) {", "  for (size_t i = img_length_px; i-- > 0;) {"))
item("gray ptr walk", "ref", "", sub("rgba_to_grayscale.c", '''  for (size_t i = 0; i < img_length_px; i++) {
    size_t rgba_index = i * 4;

    uint8_t r = data[rgba_index];
    uint8_t g = data[rgba_index + 1];
    uint8_t b = data[rgba_index + 2];
''', '''  const uint8_t *p = data;
  const uint8_t *end = data + img_length_px * 4;
  for (size_t i = 0; p != end; i++) {
    uint8_t r = *p++;
    uint8_t g = *p++;
    uint8_t b = *p++;
    p++;
'''))
item("s2m while", "ref", "", sub("single_to_multichannel.c", '''  for (size_t i = 0; i < img_length_px; i++) {
    size_t rgba_index = i * 4;
    multichannel_data[rgba_index] = data[i];
    multichannel_data[rgba_index + 1] = data[i];
    multichannel_data[rgba_index + 2] = data[i];
    multichannel_data[rgba_index + 3] = 255;
  }
''', '''  uint8_t *out = multichannel_data;
  size_t i = 0;
  do {
    const uint8_t v = data[i++];
    memset(out, v, 3);
    out[3] = 255;
    out += 4;
  } while (i < img_length_px);
'''), sub("single_to_multichannel.c", "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>"))
item("binary ternary", "ref", "", sub("convert_to_binary.c", '''      result[i] = 255;
    }''', '''      result[i] = 0xff;
    }'''))
item("dilation gather bounds", "ref", "", sub("binary_closing_disk.c", '''              if (ny >= 0 && ny < height && nx >= 0 && nx < width) {
                int32_t nidx = ny * width + nx;
                result[nidx] = 255;
              }
''', '''              if (ny < 0 || ny >= height || nx < 0 || nx >= width) {
                continue;
              }
              result[ny * width + nx] = 255;
'''))
item("global threshold ptr", "ref", "", sub("conversion.c", '''  for (uint32_t i = 0; i < img_length_px; i++) {
    data[i] = data[i] > threshold ? 255 : 0;
  }
''', '''  uint8_t *p = data;
  for (uint32_t left = img_length_px; left != 0; left--, p++) {
    if (*p <= threshold) {
      *p = 0;
    } else {
      *p = 255;
    }
  }
'''))
item("border rowptr", "ref", "", sub("draw.c", '''      for (uint32_t c = 0; c < channels; c++) {
        output_data[dst_index + c] = input_data[src_index + c];
      }
''', '''      memcpy(output_data + dst_index, input_data + src_index, channels);
'''), sub("draw.c", "#include <stdlib.h>", "#include <stdlib.h>\n#include <string.h>"))
item("border local dims", "ref", "", sub("draw.c", '''  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) {
      uint32_t src_index = (y * width + x) * channels;
      uint32_t dst_index =
        ((y + border_width) * *output_width + (x + border_width)) * channels;
''', '''  const uint32_t ow = *output_width;
  for (uint32_t y = 0; y < height; y++) {
    for (uint32_t x = 0; x < width; x++) {
      size_t src_index = ((size_t)y * width + x) * channels;
      size_t dst_index =
        ((size_t)(y + border_width) * ow + (x + border_width)) * channels;
'''))
item("blur index int", "ref", "", sub("conversion.c", '''        if (x_offset < 0 || (uint32_t)x_offset >= width) {
          continue;
        }
''', '''        if (x_offset < 0) {
          continue;
        }
        if ((uint32_t)x_offset >= width) {
          break;
        }
'''))
item("resize hoist index", "ref", "", sub("conversion.c", '''        for (int32_t c = 0; c < 3; c++) {
          uint8_t p00 = data[(y0 * width + x0) * 4 + c];
          uint8_t p01 = data[(y0 * width + x1) * 4 + c];
          uint8_t p10 = data[(y1 * width + x0) * 4 + c];
          uint8_t p11 = data[(y1 * width + x1) * 4 + c];
''', '''        const uint8_t *row0 = data + (size_t)y0 * width * 4;
        const uint8_t *row1 = data + (size_t)y1 * width * 4;
        for (int32_t c = 0; c < 3; c++) {
          uint8_t p00 = row0[x0 * 4 + c];
          uint8_t p01 = row0[x1 * 4 + c];
          uint8_t p10 = row1[x0 * 4 + c];
          uint8_t p11 = row1[x1 * 4 + c];
'''))
item("resize clamp helper", "ref", "", sub("conversion.c", "uint8_t *fcv_resize(", '''static int32_t clamp_i32(int32_t v, int32_t lo, int32_t hi) {
  if (v < lo) {
    return lo;
  }
  return v > hi ? hi : v;
}

uint8_t *fcv_resize('''), sub("conversion.c", '''        if (x0 < 0) {
          x0 = 0;
        }
        if (y0 < 0) {
          y0 = 0;
        }
        if (x1 >= (int32_t)width) {
          x1 = width - 1;
        }
        if (y1 >= (int32_t)height) {
          y1 = height - 1;
        }
''', '''        x1 = clamp_i32(x1, 0, (int32_t)width - 1);
        y1 = clamp_i32(y1, 0, (int32_t)height - 1);
        x0 = clamp_i32(x0, 0, (int32_t)width - 1);
        y0 = clamp_i32(y0, 0, (int32_t)height - 1);
'''))
item("trim helper column", "ref", "", sub("trim.c", '''    const uint8_t *ref_pixel = &data[(top * w + left) * channels];
    bool can_trim = true;

    for (uint32_t y = top; y < bottom; y++) {
      const uint8_t *pixel = &data[(y * w + left) * channels];
      if (!pixels_match(pixel, ref_pixel, channels)) {
        can_trim = false;
        break;
      }
    }
''', '''    bool can_trim = column_uniform(data, w, left, top, bottom, channels);
'''), sub("trim.c", "uint8_t *fcv_trim(", '''static bool column_uniform(
  const uint8_t *data,
  uint32_t w,
  uint32_t col,
  uint32_t top,
  uint32_t bottom,
  uint32_t channels
) {
  const uint8_t *ref = &data[((size_t)top * w + col) * channels];
  for (uint32_t y = top; y < bottom; y++) {
    if (!pixels_match(&data[((size_t)y * w + col) * channels], ref, channels)) {
      return false;
    }
  }
  return true;
}

uint8_t *fcv_trim('''))
item("circle pixel early return", "ref", "", sub("draw.c", '''  if (px >= 0 && px < (int32_t)width && py >= 0 && py < (int32_t)height) {
''', '''  if (px < 0 || py < 0) {
    return;
  }
  if ((uint32_t)px < width && (uint32_t)py < height) {
'''))
