int bant_main(int argc, char *argv[]);
int main(int argc, char *argv[]) { return bant_main(argc, argv); }
