/* the content directories of the server are scratch directories of the driver */
#ifndef VF_PATHS_H
#define VF_PATHS_H
#include "stdafx.h"
#undef VIRIATUM_CONTENTS_PATH
#undef VIRIATUM_RESOURCES_PATH
extern char vf_contents[], vf_resources[];
#define VIRIATUM_CONTENTS_PATH vf_contents
#define VIRIATUM_RESOURCES_PATH vf_resources
#endif
