from edit import item, sub, fn, allsub
def B(n, p, *e): item(n, "bug", p, *e)
def R(n, *e): item(n, "ref", "C11 C12 C13 C03 C04", *e)
C = "cli.c"
# --- C12 bugs
B("jpg result ignored", "C12", sub(C, "write_result =\n stbi_write_jpg(output_path, width, height, 4, result_data, 90);", "stbi_write_jpg(output_path, width, height, 4, result_data, 90);\n      write_result = 1;"))
B("exit 0 after pipeline", "C12", sub(C, 'fprintf(stderr, "Error: Failed to execute pipeline\\n"); stbi_image_free(image_data); free_pipeline(pipeline); return 1;', 'fprintf(stderr, "Error: Failed to execute pipeline\\n"); stbi_image_free(image_data); free_pipeline(pipeline); return is_detect_corners_only ? 1 : 0;'))
B("exit 0 after parse", "C12", sub(C, "if (!parse_pipeline(argc, argv, 2, pipeline_end_idx, pipeline)) { free_pipeline(pipeline); return 1;", "if (!parse_pipeline(argc, argv, 2, pipeline_end_idx, pipeline)) { free_pipeline(pipeline); return 0;"))
B("parse ignored", "C12", sub(C, "if (!parse_pipeline(argc, argv, 2, pipeline_end_idx, pipeline)) { free_pipeline(pipeline); return 1; }", "parse_pipeline(argc, argv, 2, pipeline_end_idx, pipeline);"))
B("save original on failure", "C12", sub(C, 'fprintf(stderr, "Error: Failed to execute pipeline\\n"); stbi_image_free(image_data); free_pipeline(pipeline); return 1;', 'fprintf(stderr, "Error: Failed to execute pipeline\\n"); result_data = image_data;'))
B("stride 3", "C12", sub(C, "stbi_write_png(output_path, width, height, 4, result_data, width * 4);", "stbi_write_png(output_path, width, height, 4, result_data, width * 3);", 1))
B("save image data", "C12", sub(C, "stbi_write_jpg(output_path, width, height, 4, result_data, 90);", "stbi_write_jpg(output_path, width, height, 4, image_data, 90);"))
B("break on failed op", "C12", sub(C, "if (temp_data && temp_data != input_data) { free(temp_data); } return NULL;", "break;"))
B("success before check", "C12", sub(C, "if (!write_result) {", 'fprintf(stderr, "Successfully saved processed image to \'%s\'\\n", output_path); if (!write_result) {'))
B("write failure exits 0", "C12", sub(C, 'if (result_data != image_data) { free(result_data); } free_pipeline(pipeline); return 1;', 'if (result_data != image_data) { free(result_data); } free_pipeline(pipeline); return width == 0;'))
B("jpg swapped", "C12", sub(C, "stbi_write_jpg(output_path, width, height, 4,", "stbi_write_jpg(output_path, height, width, 4,"))
B("jpg 3 comps", "C12", sub(C, "stbi_write_jpg(output_path, width, height, 4,", "stbi_write_jpg(output_path, width, height, 3,"))
B("load 3", "C12", sub(C, "&height, &channels, 4);", "&height, &channels, 3);"))
B("old dims", "C12", sub(C, "uint8_t *result_data =\n execute_pipeline(&width, &height, pipeline, image_data);", "int32_t w0 = width; uint8_t *result_data = execute_pipeline(&w0, &height, pipeline, image_data);"))
B("oom parse ok", "C12", sub(C, 'if (!combined) {\n fprintf(stderr, "Error: out of memory\\n");\n return 0;', 'if (!combined) {\n return 1;'))
B("sobel grey fallback", "C12", sub(C, "free(grayscale_sobel); return (uint8_t *)rgba_result;", "if (!rgba_result) return grayscale_sobel; free(grayscale_sobel); return (uint8_t *)rgba_result;"))
B("empty pipeline ok", "C12", sub(C, 'fprintf(stderr, "Error: No operations specified\\n"); free_pipeline(pipeline); return 1;', 'free_pipeline(pipeline); return 0;'))
B("jpg falls back", "C12", sub(C, "if (!write_result) {", "if (!write_result && !ext) {"))
B("temp write first", "C12", sub(C, "uint8_t *result_data =\n execute_pipeline(", "if (!is_detect_corners_only) stbi_write_png(output_path, width, height, 4, image_data, width * 4);\n  uint8_t *result_data =\n execute_pipeline("))
B("blur fallback", "C12", sub(C, "return (\n uint8_t *\n )fcv_apply_gaussian_blur(*width, *height, param, input_data);", "uint8_t *bl = (uint8_t *)fcv_apply_gaussian_blur(*width, *height, param, input_data); if (!bl) { bl = malloc((size_t)*width * *height * 4); if (bl) memcpy(bl, input_data, (size_t)*width * *height * 4); } return bl;"))
# --- refactorings
SAVE = '''static int32_t save_image(const char *path, int32_t w, int32_t h, const uint8_t *pixels, int32_t binarized) {
  const char *ext = strrchr(path, '.');
  int32_t jpeg = ext != NULL && (!strcmp(ext, ".jpg") || !strcmp(ext, ".jpeg"));
  if (jpeg) {
    if (binarized) fprintf(stderr, "WARNING: binarized image saved as JPEG\\n");
    return stbi_write_jpg(path, w, h, 4, pixels, 90);
  }
  return stbi_write_png(path, w, h, 4, pixels, 4 * w);
}
static uint8_t *load_image(const char *path, int32_t *w, int32_t *h) {
  int32_t n = 0;
  uint8_t *p = stbi_load(path, w, h, &n, 4);
  if (p == NULL) {
    fprintf(stderr, "Error: Could not load image '%s'\\n", path);
    return NULL;
  }
  fprintf(stderr, "%d channels\\n", n);
  return p;
}
static int32_t is_jpeg_name(const char *path) {
  const char *names[] = {".jpg", ".jpeg", ".JPG", ".JPEG"};
  const char *ext = strrchr(path, '.');
  if (!ext) return 0;
  for (int i = 0; i < 4; i++) {
    if (strcmp(ext, names[i]) == 0) return 1;
  }
  return 0;
}
typedef uint8_t *(*Turn)(uint32_t, uint32_t, uint8_t const *const);
static uint8_t *oriented(int32_t orientation, int32_t *w, int32_t *h, uint8_t *img) {
  uint8_t *out = NULL;
  uint32_t a = (uint32_t)*w, b = (uint32_t)*h;
  if (orientation == 2) out = fcv_flip_x(a, b, img);
  else if (orientation == 3) out = fcv_rotate_180(a, b, img);
  else if (orientation == 4) out = fcv_flip_y(a, b, img);
  else if (orientation == 5) out = fcv_transpose(a, b, img);
  else if (orientation == 6) out = fcv_rotate_90_cw(a, b, img);
  else if (orientation == 7) out = fcv_transverse(a, b, img);
  else if (orientation == 8) out = fcv_rotate_270_cw(a, b, img);
  else return img;
  free(img);
  if (out && orientation >= 5) {
    *w = (int32_t)b;
    *h = (int32_t)a;
  }
  return out;
}
'''
MAIN = '''int32_t main(int32_t argc, char *argv[]) {
  int32_t status = 1;
  Pipeline *pipeline = NULL;
  uint8_t *image = NULL;
  uint8_t *result = NULL;
  int32_t width = 0;
  int32_t height = 0;
  if (argc < 3 || (argc == 3 && strcmp(argv[2], "detect_corners") != 0)) {
    print32_t_usage(argv[0]);
    return 1;
  }
  const int32_t print_only = argc == 3;
  const int32_t last = print_only ? argc : argc - 1;
  pipeline = create_pipeline();
  if (!pipeline) {
    fprintf(stderr, "Error: out of memory\\n");
    goto done;
  }
  if (!parse_pipeline(argc, argv, 2, last, pipeline)) goto done;
  if (pipeline->count <= 0) {
    fprintf(stderr, "Error: No operations specified\\n");
    goto done;
  }
  image = load_image(argv[1], &width, &height);
  if (!image) goto done;
  if (is_jpeg_name(argv[1])) {
    int32_t orientation = fcv_get_exif_orientation(argv[1]);
    if (orientation >= 2 && orientation <= 8) {
      image = oriented(orientation, &width, &height, image);
      if (!image) goto done;
    }
  }
  result = execute_pipeline(&width, &height, pipeline, image);
  if (!result) {
    fprintf(stderr, "Error: Failed to execute pipeline\\n");
    goto done;
  }
  if (!print_only) {
    const char *out = argv[argc - 1];
    if (save_image(out, width, height, result, pipeline_has_binarization(pipeline)) == 0) {
      fprintf(stderr, "Error: Could not save image to '%s'\\n", out);
      goto done;
    }
    fprintf(stderr, "Successfully saved processed image to '%s'\\n", out);
  }
  status = 0;
done:
  if (result != image) free(result);
  free(image);
  free_pipeline(pipeline);
  return status;
}
'''
R("main goto done", fn(C, "main", SAVE + MAIN))
# the same with mistakes
B("goto status early", "C12", fn(C, "main", SAVE + MAIN.replace("  if (!print_only) {\n    const", "  status = 0;\n  if (!print_only) {\n    const")))
B("goto parse", "C12", fn(C, "main", SAVE + MAIN.replace("  int32_t status = 1;", "  int32_t status = 0;").replace('pipeline\\n");\n', 'pipeline\\n");\n    status = 1;\n')))
R("main exit", sub(C, 'fprintf(stderr, "Error: Failed to execute pipeline\\n"); stbi_image_free(image_data); free_pipeline(pipeline); return 1;', 'fprintf(stderr, "Error: Failed to execute pipeline\\n"); stbi_image_free(image_data); free_pipeline(pipeline); exit(EXIT_FAILURE);'))
R("write ternary", sub(C, "if (!write_result) {", "int ok = write_result != 0;\n    if (ok == 0) {"))
R("stride variable", sub(C, "int32_t write_result;", "int32_t write_result = 0; const int32_t stride = width << 2;"), allsub(C, "result_data, width * 4);", "result_data, stride);"))
R("return expression", sub(C, 'free(result_data); } free_pipeline(pipeline); return 0; }', 'free(result_data); } free_pipeline(pipeline); int code = EXIT_SUCCESS; return code; }'))
R("execute while", sub(C, "for (int32_t i = 0; i < pipeline->count; i++) { PipelineOp *op = &pipeline->ops[i]; fprintf(stderr, \"Applying operation: %s\", op->operation);", "int32_t i = 0; while (i < pipeline->count) { PipelineOp *op = pipeline->ops + i++; fprintf(stderr, \"Applying operation: %s\", op->operation);"))
# --- C13
B("exif 5 7", "C13", sub(C, "rotated_data = fcv_transpose(old_width, old_height, image_data);", "rotated_data = fcv_transverse(old_width, old_height, image_data);"))
B("exif 7 no swap", "C13", sub(C, "rotated_data = fcv_transverse(old_width, old_height, image_data);\n width = (int32_t)old_height;\n height = (int32_t)old_width;", "rotated_data = fcv_transverse(old_width, old_height, image_data);"))
B("exif JPEG ext", "C13", sub(C, 'strcmp(ext_in, ".JPEG") == 0', 'strcmp(ext_in, ".Jpeg") == 0'))
B("exif below 8", "C13", sub(C, "if (orientation > 1 && orientation <= 8) {", "if (orientation > 1 && orientation < 8) {"))
B("exif reader 9", "C13", sub("exif.c", "if (orientation < 1 || orientation > 8) {", "if (orientation < 1 || orientation > 9) {"))
B("exif reader zero", "C13", sub("exif.c", "if (orientation < 1 || orientation > 8) {", "if (orientation > 8) {"))
B("exif reader unchecked", "C13", sub("exif.c", "if (orientation < 1 || orientation > 8) {\n return 1; // Invalid value\n }", ""))
B("exif reader byte", "C13", sub("exif.c", "uint16_t orientation = read_u16(file, is_little_endian);", "uint16_t orientation = read_u16(file, is_little_endian); if (orientation > 255) { orientation >>= 8; fclose(file); return orientation; }"))
B("exif rotate args", "C13", sub(C, "rotated_data = fcv_rotate_270_cw(old_width, old_height, image_data);", "rotated_data = fcv_rotate_270_cw(old_height, old_width, image_data);"))
B("exif failed swap", "C13", sub(C, 'if (!rotated_data) { fprintf(stderr, "Error: Could not apply EXIF orientation\\n"); stbi_image_free(image_data); free_pipeline(pipeline); return 1; } stbi_image_free(image_data); image_data = rotated_data;', "if (rotated_data) { stbi_image_free(image_data); image_data = rotated_data; }"))
B("goto exif swap 4", "C13", fn(C, "main", SAVE.replace("orientation >= 5", "orientation >= 4") + MAIN))
B("goto exif order", "C13", fn(C, "main", SAVE.replace("orientation == 6) out = fcv_rotate_90_cw", "orientation == 6) out = fcv_rotate_270_cw").replace("orientation == 8) out = fcv_rotate_270_cw", "orientation == 8) out = fcv_rotate_90_cw") + MAIN))
B("exif flip x 4", "C13", sub(C, "rotated_data = fcv_flip_y(old_width, old_height, image_data);", "rotated_data = fcv_flip_x(old_width, old_height, image_data);"))
B("exif applied to png", "C13", sub(C, "int32_t orientation = fcv_get_exif_orientation(input_path);", "int32_t orientation = fcv_get_exif_orientation(argv[1]); if (orientation == 1) orientation = channels;"))
R("exif table", sub(C, "switch (orientation) {", "typedef uint8_t *(*Turn)(uint32_t, uint32_t, uint8_t const *const);\n static const Turn turns[9] = {NULL, NULL, fcv_flip_x, fcv_rotate_180, fcv_flip_y, fcv_transpose, fcv_rotate_90_cw, fcv_transverse, fcv_rotate_270_cw};\n rotated_data = turns[orientation](old_width, old_height, image_data);\n if (orientation >= 5) { width = (int32_t)old_height; height = (int32_t)old_width; }\n switch (0) {"))
R("exif range early", sub("exif.c", "if (orientation < 1 || orientation > 8) {\n return 1; // Invalid value\n }\n return (int32_t)orientation;", "return orientation >= 1 && orientation <= 8 ? (int32_t)orientation : 1;"))
R("exif range helper", sub("exif.c", "int32_t fcv_get_exif_orientation(char const *filename) {", "static int32_t valid(uint16_t o) { if (o == 0) return 1; return o > 8 ? 1 : o; }\nint32_t fcv_get_exif_orientation(char const *filename) {"), sub("exif.c", "if (orientation < 1 || orientation > 8) {\n return 1; // Invalid value\n }\n return (int32_t)orientation;", "return valid(orientation);"))
R("exif range minus", sub("exif.c", "if (orientation < 1 || orientation > 8) {", "if ((uint32_t)orientation - 1u >= 8u) {"))
R("exif result variable", sub("exif.c", "uint16_t orientation = read_u16(file, is_little_endian);\n fclose(file);", "int32_t orientation = read_u16(file, is_little_endian);\n fclose(file);"))
R("exif swap after", sub(C, "rotated_data = fcv_transpose(old_width, old_height, image_data);\n width = (int32_t)old_height;\n height = (int32_t)old_width;\n break;", "rotated_data = fcv_transpose(old_width, old_height, image_data);\n if (rotated_data) { int32_t t = width; width = height; height = t; }\n break;"))
