extern "C" {
int which() { return 6; }
int only_in_e() { return 55; }
int counter() { static int n = 0; return ++n; }
}
