// The examples of the documentation
#include <cstring>
#include <iostream>
#ifdef ATOF_FIRST
#include "floaxie/atof.h"
#include "floaxie/ftoa.h"
#else
#include "floaxie/ftoa.h"
#include "floaxie/atof.h"
#endif

using namespace std;
using namespace floaxie;

static bool printing()
{
	double pi = 0.1;
	char buffer[128];

	ftoa(pi, buffer);
	return !strcmp(buffer, "0.1");
}

static bool parsing()
{
	char str[] = "0.1";
	char* str_end;
	double pi = 0;

	pi = atof<double>(str, &str_end);
	return pi == 0.1 && str_end == str + 3;
}

int main(int, char**) { return !(printing() && parsing()); }
