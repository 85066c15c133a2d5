from edit import item, sub, fn, allsub
def B(n, p, *e): item("n " + n, "bug", p, *e)
def R(n, *e): item("n " + n, "ref", "C11 C12 C13 C03 C04", *e)
C = "cli.c"
F = "free_pipeline(pipeline);\n      return 1;\n    }\n\n    fprintf(\n      stderr,\n      \"Successfully"
B("write result as status", "C12", sub(C, F, F.replace("return 1", "return write_result")))
B("status 256", "C12", sub(C, F, F.replace("return 1", "return 256")))
B("write negative", "C12", sub(C, "if (!write_result) {", "if (write_result < 0) {"))
B("corners anywhere", "C12", sub(C, "if (!is_detect_corners_only) {\n    fprintf(stderr, \"Final", "if (strcmp(argv[argc - 2], \"detect_corners\") != 0 && !is_detect_corners_only) {\n    fprintf(stderr, \"Final"))
B("output is argv3", "C12", sub(C, "NULL : argv[argc - 1];", "NULL : argv[3];"))
B("load failure blank", "C12", sub(C, "fprintf(stderr, \"Error: Could not load image '%s'\\n\", input_path);\n    free_pipeline(pipeline);\n    return 1;", "fprintf(stderr, \"Error: Could not load image '%s'\\n\", input_path);\n    free_pipeline(pipeline);\n    return 0;"))
B("png when unchanged skipped", "C12", sub(C, "if (ext && strcmp(ext, \".png\") == 0) {\n      write_result =\n        stbi_write_png(output_path, width, height, 4, result_data, width * 4);", "if (ext && strcmp(ext, \".png\") == 0) {\n      write_result = result_data == image_data ? 1 :\n        stbi_write_png(output_path, width, height, 4, result_data, width * 4);"))
B("exif dims late", "C13", sub(C, "case 6: // 90 degrees CW\n        rotated_data = fcv_rotate_90_cw(old_width, old_height, image_data);\n        width = (int32_t)old_height;\n        height = (int32_t)old_width;", "case 6: // 90 degrees CW\n        rotated_data = fcv_rotate_90_cw(old_width, old_height, image_data);\n        width = (int32_t)old_height;\n        height = (int32_t)width;"))
B("exif gt 2", "C13", sub(C, "if (orientation > 1 && orientation <= 8) {", "if (orientation > 2 && orientation <= 8) {"))
B("exif small image", "C13", sub(C, "if (orientation > 1 && orientation <= 8) {", "if (orientation > 1 && orientation <= 8 && width != height) {"))
B("exif failure ignored", "C13 C04", sub(C, "fprintf(stderr, \"Error: Could not apply EXIF orientation\\n\");\n        stbi_image_free(image_data);\n        free_pipeline(pipeline);\n        return 1;", "fprintf(stderr, \"Error: Could not apply EXIF orientation\\n\");\n        rotated_data = image_data;"))
B("exif strchr", "C13", sub(C, "const char *ext_in = strrchr(input_path, '.');", "const char *ext_in = strchr(input_path, '.');"))
R("failed label", sub(C, "if (!write_result) {", "const bool failed = write_result == 0;\n    if (failed) {"))
R("exif swap helper", sub(C, "int32_t main(int32_t argc", "static void swap_dims(int32_t *a, int32_t *b) {\n  int32_t t = *a;\n  *a = *b;\n  *b = t;\n}\n\nint32_t main(int32_t argc"), allsub(C, "        width = (int32_t)old_height;\n        height = (int32_t)old_width;\n", "        swap_dims(&width, &height);\n"))
R("exif ext loop", sub(C, "if (ext_in && (strcmp(ext_in, \".jpg\") == 0 || strcmp(ext_in, \".jpeg\") == 0 ||\n                 strcmp(ext_in, \".JPG\") == 0 || strcmp(ext_in, \".JPEG\") == 0)) {", "static const char *const jpeg_exts[] = {\".jpg\", \".jpeg\", \".JPG\", \".JPEG\"};\n  bool is_jpeg = false;\n  for (size_t k = 0; ext_in && k < sizeof(jpeg_exts) / sizeof(jpeg_exts[0]); k++) {\n    if (strcmp(ext_in, jpeg_exts[k]) == 0) {\n      is_jpeg = true;\n      break;\n    }\n  }\n  if (is_jpeg) {"))
R("corners flag bool", sub(C, "int32_t is_detect_corners_only = 0;\n  if (argc == 3 && strcmp(argv[2], \"detect_corners\") == 0) {\n    is_detect_corners_only = 1;\n  }", "const bool is_detect_corners_only =\n    argc == 3 && strcmp(argv[2], \"detect_corners\") == 0;"))
R("save helper", sub(C, "int32_t main(int32_t argc", "static int32_t save(const char *path, int32_t w, int32_t h, uint8_t *px) {\n  const char *ext = strrchr(path, '.');\n  const bool jpg = ext && (strcmp(ext, \".jpg\") == 0 || strcmp(ext, \".jpeg\") == 0);\n  if (jpg) {\n    return stbi_write_jpg(path, w, h, 4, px, 90);\n  }\n  return stbi_write_png(path, w, h, 4, px, w * 4);\n}\n\nint32_t main(int32_t argc"), sub(C, "if (!write_result) {", "write_result = save(output_path, width, height, result_data);\n    if (!write_result) {"), sub(C, "write_result =\n        stbi_write_png(output_path, width, height, 4, result_data, width * 4);", "write_result = 0;", 1), sub(C, "write_result =\n        stbi_write_png(output_path, width, height, 4, result_data, width * 4);", "write_result = 0;", 0), sub(C, "write_result =\n        stbi_write_jpg(output_path, width, height, 4, result_data, 90);", "write_result = 0;"))
