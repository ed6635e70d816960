#define HTTP_FRAME
#include "http_drive.h"
#include "http_scenario.h"
