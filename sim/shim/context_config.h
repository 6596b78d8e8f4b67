#ifndef VSIM_CONTEXT_CONFIG_H
#define VSIM_CONTEXT_CONFIG_H
#endif
