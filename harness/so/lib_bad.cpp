extern "C" {
int nowhere_to_be_found();
int which() { return 3; }
int broken() { return nowhere_to_be_found(); }
}
