from edit import item, sub, fn, allsub
def B(n, p, *e): item(n, "bug", p, *e)
def R(n, *e): item(n, "ref", "C02 C08 C10", *e)
V = "conversion.c"
B("div stretch unguarded", "C02", sub(V, "if (range == 0) {\n      // All pixels have same value, preserve as-is\n      // (no stretching possible)\n    }\n    else if (gray < min_val)", "if (gray < min_val)"))
B("div stretch gray==0", "C02", sub(V, "if (range == 0) {", "if (range == 0 && gray == min_val && gray > 0) {"))
R("div histogram never empty", sub("histogram.c", "if (max_count == 0) {\n    return output; // Return black image if no data\n  }", ""))
R("stretch inequality guard", sub(V, "if (range == 0) {", "if (max_val <= min_val) {"))
R("stretch equality guard", sub(V, "if (range == 0) {", "if (max_val == min_val) {"))
R("stretch flag", sub(V, "uint8_t range = max_val - min_val;", "uint8_t range = max_val - min_val;\n  bool flat = range == 0;"), sub(V, "if (range == 0) {", "if (flat) {"))
R("stretch safe divisor", sub(V, "uint8_t range = max_val - min_val;", "uint8_t range = max_val - min_val;\n  int divisor = range ? range : 1;"), sub(V, "* 255 / range;", "* 255 / divisor;"))
B("abort on odd", "C02", sub("corner_peaks.c","bool *rejected = calloc","if (candidate_count > 100000) abort(); bool *rejected = calloc"))
