"""C16: colour strings (names start with "hex")"""
from edit import item, sub, fn, allsub
P = "parse_hex_color.c"
def B(n, *e): item("hex " + n, "bug", "C16", *e)
def R(n, *e): item("hex " + n, "ref", "C01 C02 C09 C11 C16", *e)
VAL = """    if (!((hex[i] >= '0' && hex[i] <= '9') ||
          (hex[i] >= 'A' && hex[i] <= 'F') ||
          (hex[i] >= 'a' && hex[i] <= 'f'))) {"""
LOOP = """  for (int32_t i = 0; i < 6; i++) {
""" + VAL + """
      // Default to white for invalid hex codes
      *r = 255;
      *g = 255;
      *b = 255;
      return;
    }
  }
"""
TAIL = """  uint32_t rgb_value;
  sscanf(hex, "%x", &rgb_value);

  *r = (rgb_value >> 16) & 0xFF;
  *g = (rgb_value >> 8) & 0xFF;
  *b = rgb_value & 0xFF;
"""
B("loop five", sub(P, "i < 6; i++", "i < 5; i++"))
B("loop from one", sub(P, "int32_t i = 0; i < 6", "int32_t i = 1; i < 6"))
B("G accepted", sub(P, "hex[i] <= 'F'", "hex[i] <= 'G'"))
B("at accepted", sub(P, "hex[i] >= 'A'", "hex[i] >= '@'"))
B("lower missing", sub(P, " ||\n          (hex[i] >= 'a' && hex[i] <= 'f')", ""))
B("lower e", sub(P, "hex[i] <= 'f'", "hex[i] < 'f'"))
B("long accepted", sub(P, "strlen(hex) != 6", "strlen(hex) < 6"))
B("short accepted", sub(P, "strlen(hex) != 6", "strlen(hex) > 6"), sub(P, "i < 6; i++", "i < (int32_t)strlen(hex); i++"))
B("eight accepted", sub(P, "strlen(hex) != 6", "strlen(hex) != 6 && strlen(hex) != 8"))
B("swap", sub(P, "*r = (rgb_value >> 16) & 0xFF;", "*r = rgb_value & 0xFF;"), sub(P, "*b = rgb_value & 0xFF;", "*b = (rgb_value >> 16) & 0xFF;"))
B("shift 12", sub(P, "rgb_value >> 8", "rgb_value >> 12"))
B("mask 7f", sub(P, "*g = (rgb_value >> 8) & 0xFF;", "*g = (rgb_value >> 8) & 0xFE;"))
B("width five", sub(P, '"%x"', '"%5x"'))
B("decimal", sub(P, '"%x"', '"%i"'))
B("unset blue", sub(P, "*g = 255;\n      *b = 255;", "*g = 255;"))
B("white 254", sub(P, "*r = 255;\n    *g = 255;\n    *b = 255;\n    return;\n  }\n\n  // Validate that", "*r = 255;\n    *g = 255;\n    *b = 254;\n    return;\n  }\n\n  // Validate that"))
B("many hashes", sub(P, "if (hex[0] == '#') {", "while (hex[0] == '#') {"))
B("hash required", sub(P, "if (hex[0] == '#') {\n    hex++;\n  }", "hex++;"))
B("0x prefix", sub(P, "if (hex[0] == '#') {\n    hex++;\n  }", "if (hex[0] == '#') {\n    hex++;\n  }\n  else if (hex[0] == '0' && hex[1] == 'x') {\n    hex += 2;\n  }"))
B("black default", sub(P, "      *r = 255;\n      *g = 255;\n      *b = 255;", "      *r = 0;\n      *g = 0;\n      *b = 0;"))
B("peek seven", sub(P, "if (strlen(hex) != 6) {", "if (hex[6] != 0 || strlen(hex) != 6) {"))
B("strtol no check", sub(P, LOOP, ""), sub(P, '  uint32_t rgb_value;\n  sscanf(hex, "%x", &rgb_value);', "  uint32_t rgb_value = (uint32_t)strtoul(hex, NULL, 16);"))
B("strtol end", sub(P, LOOP, ""), sub(P, '  uint32_t rgb_value;\n  sscanf(hex, "%x", &rgb_value);', "  char *end;\n  uint32_t rgb_value = (uint32_t)strtoul(hex, &end, 16);\n  if (*end != 0) {\n    *r = 255;\n    *g = 255;\n    *b = 255;\n    return;\n  }"))
B("nibble table", sub(P, TAIL, """  uint8_t v[6];
  for (int i = 0; i < 6; i++) {
    char c = hex[i];
    v[i] = c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 9;
  }
  *r = v[0] * 16 + v[1];
  *g = v[2] * 16 + v[3];
  *b = v[4] * 16 + v[5];
"""))
B("three digits", sub(P, "  // Validate hex string length", "  if (strlen(hex) == 3) {\n    *r = 17 * (hex[0] & 15);\n    *g = 17 * (hex[1] & 15);\n    *b = 17 * (hex[2] & 15);\n    return;\n  }\n\n  // Validate hex string length"))
B("strncmp white", sub(P, "  // Validate hex string length", "  if (strcmp(hex, \"ffffff\") == 0) {\n    *r = *g = 255;\n    *b = 254;\n    return;\n  }\n\n  // Validate hex string length"))
B("sscanf pairs", sub(P, TAIL, """  unsigned rr, gg, bb;
  sscanf(hex, "%2x%2x%2x", &rr, &gg, &bb);
  *r = rr;
  *g = gg;
  *b = gg;
"""))
R("isxdigit", sub(P, VAL, "    if (!isxdigit((unsigned char)hex[i])) {"), sub(P, "#include <assert.h>", "#include <assert.h>\n#include <ctype.h>"))
R("strspn", sub(P, LOOP, '  if (strspn(hex, "0123456789abcdefABCDEF") != 6) {\n    *r = 255;\n    *g = 255;\n    *b = 255;\n    return;\n  }\n'))
R("strspn only", sub(P, LOOP, ""), sub(P, "if (strlen(hex) != 6) {", 'if (strspn(hex, "0123456789abcdefABCDEF") != 6 || hex[6] != 0) {'))
R("strchr", sub(P, VAL, '    if (strchr("0123456789abcdefABCDEF", hex[i]) == NULL) {'))
R("pairs", sub(P, TAIL, """  unsigned rr = 0, gg = 0, bb = 0;
  sscanf(hex, "%2x%2x%2x", &rr, &gg, &bb);
  *r = (uint8_t)rr;
  *g = (uint8_t)gg;
  *b = (uint8_t)bb;
"""))
R("hhx", sub(P, TAIL, '  sscanf(hex, "%2hhx%2hhx%2hhx", r, g, b);\n'))
R("strtol", sub(P, '  uint32_t rgb_value;\n  sscanf(hex, "%x", &rgb_value);', "  long rgb_value = strtol(hex, NULL, 16);"))
R("strtoul", sub(P, '  uint32_t rgb_value;\n  sscanf(hex, "%x", &rgb_value);', "  uint32_t rgb_value = (uint32_t)strtoul(hex, NULL, 16);"))
R("nibbles", sub(P, TAIL, """  uint8_t v[6];
  for (int i = 0; i < 6; i++) {
    char c = hex[i];
    v[i] = c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10;
  }
  *r = v[0] * 16 + v[1];
  *g = v[2] * 16 + v[3];
  *b = v[4] * 16 + v[5];
"""))
R("accumulate", sub(P, '  uint32_t rgb_value;\n  sscanf(hex, "%x", &rgb_value);', """  uint32_t rgb_value = 0;
  for (int i = 0; i < 6; i++) {
    char c = hex[i];
    uint32_t d;
    if (c >= '0' && c <= '9') {
      d = c - '0';
    }
    else if (c >= 'a') {
      d = c - 'a' + 10;
    }
    else {
      d = c - 'A' + 10;
    }
    rgb_value = (rgb_value << 4) | d;
  }"""))
R("helper", sub(P, "// Helper function to parse hex color code to RGB values\n", """static int hex_digit(char c) {
  switch (c) {
  case '0': case '1': case '2': case '3': case '4':
  case '5': case '6': case '7': case '8': case '9':
    return c - '0';
  case 'a': case 'b': case 'c': case 'd': case 'e': case 'f':
    return c - 'a' + 10;
  case 'A': case 'B': case 'C': case 'D': case 'E': case 'F':
    return c - 'A' + 10;
  default:
    return -1;
  }
}

// Helper function to parse hex color code to RGB values
"""), sub(P, VAL, "    if (hex_digit(hex[i]) < 0) {"), sub(P, TAIL, """  *r = hex_digit(hex[0]) * 16 + hex_digit(hex[1]);
  *g = hex_digit(hex[2]) * 16 + hex_digit(hex[3]);
  *b = hex_digit(hex[4]) * 16 + hex_digit(hex[5]);
"""))
R("white helper", sub(P, "    *r = 255;\n    *g = 255;\n    *b = 255;\n    return;\n  }\n\n  // Validate that", "    set_white(r, g, b);\n    return;\n  }\n\n  // Validate that"), sub(P, "      *r = 255;\n      *g = 255;\n      *b = 255;", "      set_white(r, g, b);"), sub(P, "// Helper function to parse hex color code to RGB values\n", "static void set_white(uint8_t *r, uint8_t *g, uint8_t *b) {\n  *r = 255;\n  *g = 255;\n  *b = 255;\n}\n\n"))
R("white first", sub(P, "  const char *hex = hex_color;\n", "  const char *hex = hex_color;\n  *r = *g = *b = 255;\n"), sub(P, "    // Default to white for invalid hex codes\n    *r = 255;\n    *g = 255;\n    *b = 255;\n    return;\n  }\n\n  // Validate that", "    return;\n  }\n\n  // Validate that"), sub(P, "      *r = 255;\n      *g = 255;\n      *b = 255;\n", ""))
R("valid flag", sub(P, LOOP, """  bool valid = true;
  for (int32_t i = 0; i < 6 && valid; i++) {
    char c = hex[i];
    bool digit = c >= '0' && c <= '9';
    bool upper = c >= 'A' && c <= 'F';
    bool lower = c >= 'a' && c <= 'f';
    valid = digit || upper || lower;
  }
  if (!valid) {
    *r = 255;
    *g = 255;
    *b = 255;
    return;
  }
"""))
R("ternary hash", sub(P, "  const char *hex = hex_color;\n\n  // Skip '#' if present\n  if (hex[0] == '#') {\n    hex++;\n  }", "  const char *hex = *hex_color == '#' ? hex_color + 1 : hex_color;"))
R("plus bool", sub(P, "  const char *hex = hex_color;\n\n  // Skip '#' if present\n  if (hex[0] == '#') {\n    hex++;\n  }", "  const char *hex = hex_color + (hex_color[0] == '#');"))
R("size", sub(P, "if (strlen(hex) != 6) {", "size_t length = strlen(hex);\n  if (length < 6 || length > 6) {"))
R("pointer loop", sub(P, LOOP.replace("hex[i]", "hex[i]"), """  for (const char *p = hex; *p; p++) {
    if (!((*p >= '0' && *p <= '9') || (*p >= 'A' && *p <= 'F') ||
          (*p >= 'a' && *p <= 'f'))) {
      *r = 255;
      *g = 255;
      *b = 255;
      return;
    }
  }
"""))
R("tolower", sub(P, VAL, "    int c = tolower((unsigned char)hex[i]);\n    if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) {"), sub(P, "#include <assert.h>", "#include <assert.h>\n#include <ctype.h>"))
R("division", sub(P, "*r = (rgb_value >> 16) & 0xFF;", "*r = rgb_value / 65536;"), sub(P, "*g = (rgb_value >> 8) & 0xFF;", "*g = rgb_value / 256 % 256;"), sub(P, "*b = rgb_value & 0xFF;", "*b = rgb_value % 256;"))
R("casts", sub(P, "*r = (rgb_value >> 16) & 0xFF;", "*r = (uint8_t)(rgb_value >> 16);"), sub(P, "*g = (rgb_value >> 8) & 0xFF;", "*g = (uint8_t)(rgb_value >> 8);"), sub(P, "*b = rgb_value & 0xFF;", "*b = (uint8_t)rgb_value;"))
R("copy", sub(P, TAIL, """  char pair[3] = {0};
  memcpy(pair, hex, 2);
  *r = (uint8_t)strtol(pair, NULL, 16);
  memcpy(pair, hex + 2, 2);
  *g = (uint8_t)strtol(pair, NULL, 16);
  memcpy(pair, hex + 4, 2);
  *b = (uint8_t)strtol(pair, NULL, 16);
"""))
R("strnlen", sub(P, "if (strlen(hex) != 6) {", "if (strnlen(hex, 7) != 6) {"))
R("manual length", sub(P, "if (strlen(hex) != 6) {", "int length = 0;\n  while (length < 7 && hex[length] != '\\0') {\n    length++;\n  }\n  if (length != 6) {"))
R("table", sub(P, VAL, "    static const char digits[] = \"0123456789abcdefABCDEF\";\n    bool ok = false;\n    for (int k = 0; k < 22; k++) {\n      if (digits[k] == hex[i]) {\n        ok = true;\n      }\n    }\n    if (!ok) {"))
