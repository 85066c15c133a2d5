from edit import item, sub, fn, allsub
def B(n, p, *e): item("x " + n, "bug", p, *e)
def R(n, *e): item("x " + n, "ref", "C13 C15 C01 C04", *e)
X = "exif.c"
B("stored seven refused", "C13", sub(X, "orientation > 8) {", "orientation > 7) {"))
B("stored one two", "C13", sub(X, "return (int32_t)orientation;", "return orientation == 5 ? 7 : (int32_t)orientation;"))
B("stored xor", "C13", sub(X, "return (int32_t)orientation;", "return (int32_t)(9 - orientation);"))
B("stored clamp", "C13", sub(X, "return 1; // Invalid value", "return orientation > 8 ? 8 : 1;"))
B("stored first refused", "C13", sub(X, "if (orientation < 1 || orientation > 8) {", "if (orientation <= 2 || orientation > 8) {"))
R("stored result", sub(X, "fclose(file);\n          if (orientation < 1 || orientation > 8) {\n            return 1; // Invalid value\n          }\n          return (int32_t)orientation;", "fclose(file);\n          return orientation - 1u < 8u ? (int32_t)orientation : 1;"))
R("stored type test", sub(X, "(void)read_u16(file, is_little_endian); // Skip type", "uint16_t type = read_u16(file, is_little_endian);"), sub(X, "if (orientation < 1 || orientation > 8) {", "(void)type;\n          if (orientation == 0 || orientation >= 9) {"))
R("stored variable", sub(X, "uint8_t marker[2];\n", "uint8_t marker[2];\n  int32_t result = 1;\n"), sub(X, "fclose(file);\n          if (orientation < 1 || orientation > 8) {\n            return 1; // Invalid value\n          }\n          return (int32_t)orientation;", "if (orientation >= 1 && orientation <= 8) {\n            result = orientation;\n          }\n          break;"), sub(X, "fclose(file);\n  return 1;\n}", "fclose(file);\n  return result;\n}", 1))
R("stored switch", sub(X, "if (orientation < 1 || orientation > 8) {\n            return 1; // Invalid value\n          }\n          return (int32_t)orientation;", "switch (orientation) {\n          case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8:\n            return (int32_t)orientation;\n          default:\n            return 1;\n          }"))
