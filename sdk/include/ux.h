#pragma once
/* Host stand-in for the BAGL flow engine of the Ledger SDK. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include "macros.h"
#include "os.h"
#include "io.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct bagl_icon_details_s { unsigned int width, height, bpp; const char *name; } bagl_icon_details_t;

typedef void (*ux_flow_step_init_t)(unsigned int);
struct ux_flow_step_s;
typedef struct ux_flow_step_s {
    ux_flow_step_init_t init;
    const void *params;
    const struct ux_flow_step_s *const *validate_flow;
    const struct ux_flow_step_s *const *error_flow;
} ux_flow_step_t;

#define FLOW_END_STEP ((const ux_flow_step_t *) 0xFFFFFFFFUL)
#define FLOW_BARRIER  ((const ux_flow_step_t *) 0xFFFFFFFEUL)
#define FLOW_START    ((const ux_flow_step_t *) 0xFFFFFFFDUL)
#define FLOW_LOOP     ((const ux_flow_step_t *) 0xFFFFFFFCUL)

#define UX_STACK_SLOT_COUNT 2
typedef struct { uint16_t index; uint16_t prev_index; uint16_t length; const ux_flow_step_t *const *steps; } ux_flow_state_t;
typedef struct { uint8_t stack_count; ux_flow_state_t flow_stack[UX_STACK_SLOT_COUNT]; } ux_state_t;
extern ux_state_t G_ux;

void ux_flow_init(unsigned int stack_slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start_step);
void ux_flow_next(void);
void ux_flow_prev(void);
void ux_flow_validate(void);
void ux_flow_relayout(void);
unsigned int ux_stack_push(void);
unsigned int ux_stack_pop(void);

typedef struct { const char *line1; } ux_layout_n_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_bn_params_t;
typedef ux_layout_bn_params_t ux_layout_nn_params_t;
typedef ux_layout_bn_params_t ux_layout_bb_params_t;
typedef struct { const char *line1; const char *line2; const char *line3; } ux_layout_bnn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pn_params_t;
typedef ux_layout_pn_params_t ux_layout_pb_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pnn_params_t;
typedef ux_layout_pnn_params_t ux_layout_pbb_params_t;
typedef ux_layout_pnn_params_t ux_layout_pbn_params_t;
typedef struct { const char *title; const char *text; } ux_layout_bnnn_paging_params_t;
typedef ux_layout_bnnn_paging_params_t ux_layout_paging_params_t;
void ux_layout_n_init(unsigned int stack_slot);
void ux_layout_bn_init(unsigned int stack_slot);
void ux_layout_nn_init(unsigned int stack_slot);
void ux_layout_bb_init(unsigned int stack_slot);
void ux_layout_bnn_init(unsigned int stack_slot);
void ux_layout_pn_init(unsigned int stack_slot);
void ux_layout_pb_init(unsigned int stack_slot);
void ux_layout_pnn_init(unsigned int stack_slot);
void ux_layout_pbb_init(unsigned int stack_slot);
void ux_layout_pbn_init(unsigned int stack_slot);
void ux_layout_bnnn_paging_init(unsigned int stack_slot);
void ux_layout_paging_init(unsigned int stack_slot);

#define UX_STEP_NOCB(stepname, layoutkind, ...)                                       \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;             \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, &stepname##_val, NULL, NULL}
#define UX_STEP_CB(stepname, layoutkind, validate_cb, ...)                            \
    static void stepname##_validateinit(unsigned int stack_slot) {                    \
        UNUSED(stack_slot);                                                           \
        validate_cb;                                                                  \
    }                                                                                 \
    const ux_flow_step_t stepname##_validate_step = {stepname##_validateinit, NULL, NULL, NULL}; \
    const ux_flow_step_t *const stepname##_validate[] = {&stepname##_validate_step, FLOW_END_STEP}; \
    const ux_layout_##layoutkind##_params_t stepname##_val = __VA_ARGS__;             \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, &stepname##_val, stepname##_validate, NULL}
#define UX_STEP_VALID UX_STEP_CB
#define UX_STEP_INIT(stepname, validate_flow, error_flow, ...)                        \
    static void stepname##_init(unsigned int stack_slot) {                            \
        UNUSED(stack_slot);                                                           \
        __VA_ARGS__;                                                                  \
    }                                                                                 \
    const ux_flow_step_t stepname = {stepname##_init, NULL, validate_flow, error_flow}
#define UX_FLOW(flow_name, ...) const ux_flow_step_t *const flow_name[] = {__VA_ARGS__, FLOW_END_STEP}
#ifdef __cplusplus
}
#endif
