#pragma GCC diagnostic ignored "-Wall"
extern "C" { int getint(); int getch(); float getfloat(); int getarray(int*); int getfarray(float*);
void putint(int); void putch(int); void putarray(int, const int*); void putfloat(float); void putfarray(int, const float*);
void starttime(); void stoptime(); }
