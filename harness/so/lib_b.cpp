extern "C" {
int which() { return 2; }
int only_in_b() { return 22; }
int counter() { static int n = 0; return ++n; }
}
