#pragma once
#define SYMBOL_EXPORT __attribute__((__visibility__("default")))
#define SYMBOL_IMPORT
