#pragma once
#define NODE_MAJOR_VERSION 22
#define NODE_MINOR_VERSION 0
#define NODE_PATCH_VERSION 0
#define NODE_VERSION_AT_LEAST(a, b, c) ((a) <= NODE_MAJOR_VERSION)
