from edit import item, sub, fn, allsub
def B(n, *e): item("cli " + n, "bug", "C11", *e)
def R(n, *e): item("cli " + n, "ref", "C11 C12 C13 C03 C04", *e)
C = "cli.c"
B("blur int radius", sub(C, ")fcv_apply_gaussian_blur(*width, *height, param, input_data);", ")fcv_apply_gaussian_blur(*width, *height, (int32_t)param, input_data);"))
B("resize y percent of x", sub(C, "resize_y = strchr(second_part, '%') ? atof(second_part) / 100.0", "resize_y = strchr(second_part, '%') ? atof(first_part) / 100.0"))
B("resize height by width", sub(C, "resize_y = atof(second_part) / *height;", "resize_y = atof(second_part) / *width;"))
B("resize dims swapped", sub(C, "if (result) { *width = out_width; *height = out_height; }", "if (result) { *width = out_height; *height = out_width; }"))
B("resize param2", sub(C, "resize_y = has_param2 ? param2 : param;", "resize_y = param;"))
B("smart smooth", sub(C, "fcv_bw_smart(*width, *height, true, input_data)", "fcv_bw_smart(*width, *height, false, input_data)"))
B("otsu double", sub(C, "fcv_otsu_threshold_rgba(*width, *height, false, input_data)", "fcv_otsu_threshold_rgba(*width, *height, true, input_data)"))
B("circle draws disk", sub(C, "fcv_draw_circle( *width,", "fcv_draw_disk( *width,"))
B("disk x y", sub(C, "double center_x = param2; double center_y = param3; double radius = param;", "double center_x = param3; double center_y = param2; double radius = param;", 1))
B("disk not copied", sub(C, "memcpy(result, input_data, img_length_byte);\n\n fcv_draw_disk(\n *width,", "memset(result, 0, img_length_byte);\n\n fcv_draw_disk(\n *width,"))
B("corners twice", sub(C, "fcv_draw_disk(*width, *height, 4, red, radius, cs.bl_x, cs.bl_y, result);", "fcv_draw_disk(*width, *height, 4, red, radius, cs.bl_x, cs.br_y, result);"))
B("watershed marker xy", sub(C, "markers[marker_idx].x = atof(trim_whitespace(token)); markers[marker_idx].y = atof(trim_whitespace(x_pos + 1));", "markers[marker_idx].y = atof(trim_whitespace(token)); markers[marker_idx].x = atof(trim_whitespace(x_pos + 1));"))
B("watershed boundaries", sub(C, "marker_idx,\n false\n );", "marker_idx,\n true\n );"))
B("crop max height", sub(C, "uint32_t max_height = *height - y;", "uint32_t max_height = *height - x;"))
B("crop dims uncut", sub(C, "*width = crop_width; *height = crop_height;", "*width = (int32_t)param3; *height = (int32_t)param4;"))
B("crop xy", sub(C, "fcv_crop(*width, *height, 4, input_data, x, y, crop_width, crop_height);", "fcv_crop(*width, *height, 4, input_data, y, x, crop_width, crop_height);"))
B("extract to swapped", sub(C, "uint32_t output_width = (uint32_t)param; uint32_t output_height = (uint32_t)param2;", "uint32_t output_width = (uint32_t)param2; uint32_t output_height = (uint32_t)param;"))
B("flip exchanged", sub(C, "return (uint8_t *)fcv_flip_x(*width, *height, input_data);", "return (uint8_t *)fcv_flip_y(*width, *height, input_data);"))
B("rotate negative", sub(C, "angle = ((angle % 360) + 360) % 360;", "angle = abs(angle) % 360;"))
B("rotate no swap", sub(C, "uint8_t *result = fcv_rotate_270_cw(*width, *height, input_data); if (result) { uint32_t tmp = *width; *width = *height; *height = tmp; }", "uint8_t *result = fcv_rotate_270_cw(*width, *height, input_data);"))
B("rotate 45 as 90", sub(C, "if (angle != 0 && angle != 90 && angle != 180 && angle != 270) {", "angle = (angle + 45) / 90 * 90; if (angle > 360) {"))
B("trim ignores number", sub(C, "return (uint8_t *)fcv_trim_threshold(width, height, 4, input_data, param);", "return (uint8_t *)fcv_trim(width, height, 4, input_data);"))
B("trim percent scale", sub(C, "double threshold = atof(param_str);", "double threshold = atof(param_str) / 100.0;"))
B("histogram dims", sub(C, "*width = hist_width; *height = hist_height;", "*width = hist_width;"))
B("border width", sub(C, "uint32_t border_width = (uint32_t)param;", "uint32_t border_width = (uint32_t)param2;"))
B("erode dilates", sub(C, "fcv_binary_erosion_disk(grayscale_data,", "fcv_binary_dilation_disk(grayscale_data,"))
B("open closes", sub(C, "fcv_binary_opening_disk(grayscale_data,", "fcv_binary_closing_disk(grayscale_data,"))
B("close of input", sub(C, "fcv_binary_closing_disk(grayscale_data, *width, *height, (int32_t)param)", "fcv_binary_closing_disk(grayscale_data, *width, *height, (int32_t)param + 1)"))
B("dilate dims", sub(C, "fcv_binary_dilation_disk(grayscale_data, *width, *height, (int32_t)param)", "fcv_binary_dilation_disk(grayscale_data, *height, *width, (int32_t)param)"))
B("prefix match", sub(C, 'else if (strcmp(operation, "flip_x") == 0) {', 'else if (strncmp(operation, "flip_x", 6) == 0) {'))
B("unknown passes", sub(C, "fprintf(stderr, \"Error: Unknown operation '%s'\\n\", operation); return NULL;", "fprintf(stderr, \"Error: Unknown operation '%s'\\n\", operation); return input_data;"))
B("extract auto prefix", sub(C, 'else if (strcmp(operation, "extract_document") == 0) {', 'else if (strncmp(operation, "extract_document", 16) == 0) {'))
B("parse resize params", sub(C, "double param2 = atof(trim_whitespace(space2 + 1));", "double param2 = param1;"))
B("parse circle xy", sub(C, 'double center_x = atof(trim_whitespace(pos_copy)); double center_y = atof(trim_whitespace(x_pos + 1));', 'double center_y = atof(trim_whitespace(pos_copy)); double center_x = atof(trim_whitespace(x_pos + 1));'))
B("parse disk radius", sub(C, "double radius = atof(trim_whitespace(remaining));", "double radius = atof(trim_whitespace(space3 + 1));", 1))
B("parse crop wh", sub(C, "(double)crop_width,", "(double)crop_height,"))
B("geometry offsets", sub(C, "*y_offset = (int32_t)y;", "*y_offset = (int32_t)x;"))
B("geometry default", sub(C, "*x_offset = 0;\n *y_offset = 0;", "*x_offset = (int32_t)w;\n *y_offset = 0;"))
B("parse border flag", sub(C, "color,\n 1\n );", "color,\n 0\n );"))
B("parse trim flag", sub(C, "param,\n 1,\n 0.0,\n 0,\n 0.0,\n 0,\n 0.0,\n 0,\n NULL,\n 0\n );", "param,\n 0,\n 0.0,\n 0,\n 0.0,\n 0,\n 0.0,\n 0,\n NULL,\n 0\n );", 1))
B("add param3", sub(C, "p->ops[p->count].param3 = param3;", "p->ops[p->count].param3 = param2;"))
B("add name short", sub(C, "sizeof(p->ops[p->count].operation) - 1\n );", "16\n );\n p->ops[p->count].operation[16] = 0;"))
B("add flag order", sub(C, "p->ops[p->count].has_param2 = has_param2;", "p->ops[p->count].has_param2 = has_param;"))
B("exec flags", sub(C, "op->has_param3,\n op->param4,", "op->has_param4,\n op->param4,"))
B("exec params", sub(C, "op->param2,\n op->has_param2,\n op->param3,", "op->param3,\n op->has_param2,\n op->param2,"))
B("exec input", sub(C, "op->has_string_param,\n current_data\n );", "op->has_string_param,\n input_data\n );"))
B("exec first", sub(C, "for (int32_t i = 0; i < pipeline->count; i++) {\n PipelineOp *op = &pipeline->ops[i];", "for (int32_t i = 0; i < pipeline->count; i += 2) {\n PipelineOp *op = &pipeline->ops[i];"))
B("exec returns temp", sub(C, "return current_data;\n}", "return temp_data ? current_data : NULL;\n}"))
B("string cut", sub(C, 'strdup(has_string_param && param_str ? param_str : "");', 'strndup(has_string_param && param_str ? param_str : "", 63);'))

MORPH = '''static uint8_t *morphology(int32_t w, int32_t h, const uint8_t *img, int32_t radius, uint8_t *(*run)(uint8_t const *, int32_t, int32_t, int32_t)) {
  uint8_t *grey = fcv_rgba_to_grayscale(w, h, img);
  uint8_t *out = grey ? run(grey, w, h, radius) : NULL;
  uint8_t *rgba = out ? fcv_single_to_multichannel(w, h, out) : NULL;
  free(grey);
  free(out);
  return rgba;
}
static uint8_t *copy_of(const uint8_t *img, int32_t w, int32_t h) {
  size_t n = (size_t)w * (size_t)h * 4;
  uint8_t *c = malloc(n);
  if (c != NULL) memcpy(c, img, n);
  return c;
}
uint8_t *apply_operation('''
M4 = {"erode": "erosion", "dilate": "dilation", "close": "closing", "open": "opening"}
def morphref():
    e = [sub(C, "uint8_t *apply_operation(", MORPH)]
    v = {"erode": "eroded", "dilate": "dilated", "close": "closed", "open": "opened"}
    for k, n in M4.items():
        e.append(sub(C, f"uint8_t *grayscale_data =\n fcv_rgba_to_grayscale(*width, *height, input_data);\n if (!grayscale_data) {{\n return NULL;\n }}\n\n uint8_t *{v[k]} =\n fcv_binary_{n}_disk(grayscale_data, *width, *height, (int32_t)param);\n free(grayscale_data);\n\n if (!{v[k]}) {{\n return NULL;\n }}\n\n // Convert back to RGBA\n uint8_t *result = fcv_single_to_multichannel(*width, *height, {v[k]});\n free({v[k]});\n return result;".replace("// Convert back to RGBA\n", ""), f"return morphology(*width, *height, input_data, (int32_t)param, fcv_binary_{n}_disk);"))
    return e
R("morph helper", *morphref())
R("copy helper", sub(C, "uint8_t *apply_operation(", MORPH), sub(C, "uint8_t *result = malloc(img_length_byte); if (!result) { return NULL; } memcpy(result, input_data, img_length_byte);", "uint8_t *result = copy_of(input_data, *width, *height); if (!result) { return NULL; }"), sub(C, "size_t size = (size_t)(*width) * (*height) * 4; uint8_t *result = malloc(size); if (result) { memcpy(result, input_data, size); } return result;", "return copy_of(input_data, *width, *height);"))
R("rotate switch", sub(C, "if (angle == 0) { uint8_t", "if (angle == 0) { uint8_t") if False else sub(C, "int angle = (int)param; angle = ((angle % 360) + 360) % 360;", "int angle = (int)param % 360; if (angle < 0) { angle += 360; }"))
R("rotate turns", sub(C, "uint8_t *result = fcv_rotate_90_cw(*width, *height, input_data); if (result) { uint32_t tmp = *width; *width = *height; *height = tmp; } return result;", "int32_t w = *width, h = *height; uint8_t *turned = fcv_rotate_90_cw(w, h, input_data); if (!turned) { return NULL; } *height = w; *width = h; return turned;"))
R("crop min", sub(C, "uint32_t max_width = *width - x; uint32_t max_height = *height - y; if (crop_width > max_width) { crop_width = max_width; } if (crop_height > max_height) { crop_height = max_height; }", "if (x + (uint64_t)crop_width > (uint64_t)*width) crop_width = *width - x;\n crop_height = crop_height < *height - y ? crop_height : *height - y;"))
R("bw flag", sub(C, 'else if (strcmp(operation, "bw_smart") == 0) {\n return (uint8_t *)fcv_bw_smart(*width, *height, false, input_data);\n }\n else if (strcmp(operation, "bw_smooth") == 0) {\n return (uint8_t *)fcv_bw_smart(*width, *height, true, input_data);\n }', 'else if (!strcmp(operation, "bw_smart") || !strcmp(operation, "bw_smooth")) {\n bool smooth = strcmp(operation, "bw_smooth") == 0;\n return (uint8_t *)fcv_bw_smart(*width, *height, smooth, input_data);\n }'))
R("corners loop", sub(C, "fcv_draw_disk(*width, *height, 4, red, radius, cs.tl_x, cs.tl_y, result); fcv_draw_disk(*width, *height, 4, red, radius, cs.tr_x, cs.tr_y, result); fcv_draw_disk(*width, *height, 4, red, radius, cs.br_x, cs.br_y, result); fcv_draw_disk(*width, *height, 4, red, radius, cs.bl_x, cs.bl_y, result);", "const double at[4][2] = {{cs.tl_x, cs.tl_y}, {cs.tr_x, cs.tr_y}, {cs.br_x, cs.br_y}, {cs.bl_x, cs.bl_y}};\n for (int i = 0; i < 4; i++) { fcv_draw_disk(*width, *height, 4, red, radius, at[i][0], at[i][1], result); }"))
R("resize factors", sub(C, "resize_y = strchr(second_part, '%') ? atof(second_part) / 100.0 : atof(second_part) / 100.0;", "resize_y = 0.01 * atof(second_part);"))
R("resize early", sub(C, "if (result) { *width = out_width; *height = out_height; } return result;", "if (!result) { return NULL; } *width = (int32_t)out_width; *height = (int32_t)out_height; return result;"))
R("table of flips", sub(C, 'else if (strcmp(operation, "flip_x") == 0) {\n return (uint8_t *)fcv_flip_x(*width, *height, input_data);\n }\n else if (strcmp(operation, "flip_y") == 0) {\n return (uint8_t *)fcv_flip_y(*width, *height, input_data);\n }', 'else if (strcmp(operation, "flip_x") == 0 || strcmp(operation, "flip_y") == 0) {\n uint8_t *(*flip)(uint32_t, uint32_t, uint8_t const *const) = operation[5] == \'x\' ? fcv_flip_x : fcv_flip_y;\n return flip(*width, *height, input_data);\n }'))
R("slot pointer", fn(C, "add_operation", '''void add_operation(Pipeline *p, const char *op, double param, int32_t has_param, double param2, int32_t has_param2, double param3, int32_t has_param3, double param4, int32_t has_param4, const char *param_str, int32_t has_string_param) {
  if (p->count == p->capacity) {
    PipelineOp *bigger = realloc(p->ops, 2 * (size_t)p->capacity * sizeof *bigger);
    if (!bigger) { p->out_of_memory = 1; return; }
    p->ops = bigger; p->capacity *= 2;
  }
  PipelineOp *slot = p->ops + p->count;
  memset(slot, 0, sizeof *slot);
  slot->param_str = strdup(has_string_param && param_str ? param_str : "");
  if (!slot->param_str) { p->out_of_memory = 1; return; }
  snprintf(slot->operation, sizeof slot->operation, "%s", op);
  slot->param = param; slot->param2 = param2; slot->param3 = param3; slot->param4 = param4;
  slot->has_param = has_param; slot->has_param2 = has_param2; slot->has_param3 = has_param3; slot->has_param4 = has_param4;
  slot->has_string_param = has_string_param;
  p->count += 1;
}'''))
R("exec pointer", fn(C, "execute_pipeline", '''uint8_t *execute_pipeline(int32_t *width, int32_t *height, Pipeline *pipeline, uint8_t *input_data) {
  uint8_t *image = input_data;
  const PipelineOp *end = pipeline->ops + pipeline->count;
  for (const PipelineOp *op = pipeline->ops; op != end; ++op) {
    fprintf(stderr, "Applying %s\\n", op->operation);
    uint8_t *next = apply_operation(width, height, op->operation, op->param, op->has_param, op->param2, op->has_param2, op->param3, op->has_param3, op->param4, op->has_param4, op->param_str, op->has_string_param, image);
    if (image != input_data) free(image);
    if (!next) return NULL;
    image = next;
  }
  return image;
}'''))
R("param count", sub(C, "double param1 = atof(trim_whitespace(params_str)); double param2 = atof(trim_whitespace(space2 + 1));", "const char *rest = trim_whitespace(space2 + 1); double param1 = atof(params_str); double param2 = atof(rest);"))
R("circle pos", sub(C, "double center_x = atof(trim_whitespace(pos_copy)); double center_y = atof(trim_whitespace(x_pos + 1));", "double center_y = atof(x_pos + 1); double center_x = atof(pos_copy);"))
R("name first", sub(C, "char *space = strchr(piece, ' '); if (space) { *space = '\\0'; char *params_str = trim_whitespace(space + 1);", "char *space = strchr(piece, ' '); int has_arguments = space != NULL; if (has_arguments) { *space = 0; char *params_str = trim_whitespace(&space[1]);"))
