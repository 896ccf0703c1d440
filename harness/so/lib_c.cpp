extern "C" {
int which() { return 4; }
int only_in_c() { return 33; }
int counter() { static int n = 0; return ++n; }
}
