#ifndef SHIM_LIBSBP_SBP_H
#define SHIM_LIBSBP_SBP_H
#include <libsbp/common.h>
#include <libsbp/shim_all.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*sbp_msg_callback_t)(u16 sender_id, u8 len, u8 msg[], void *context);
typedef void (*sbp_frame_callback_t)(u16 sender_id, u16 msg_type, u8 payload_len, u8 payload[], u16 frame_len, u8 frame[], void *context);
typedef void (*sbp_msg_callback)(u16 sender_id, sbp_msg_type_t msg_type, const sbp_msg_t *msg, void *context);
typedef enum { SBP_PAYLOAD_CALLBACK = 0, SBP_FRAME_CALLBACK = 1, SBP_DECODED_CALLBACK = 2 } sbp_cb_type;
typedef struct sbp_msg_callbacks_node {
  u16 msg_type;
  void *cb;
  void *context;
  struct sbp_msg_callbacks_node *next;
  sbp_cb_type cb_type;
} sbp_msg_callbacks_node_t;
typedef struct {
  enum { WAITING = 0, GET_TYPE, GET_SENDER, GET_LEN, GET_MSG, GET_CRC } state;
  u16 msg_type;
  u16 sender_id;
  u16 crc;
  u8 msg_len;
  u8 n_read;
  u8 frame_buff[264];
  u16 frame_len;
  void *io_context;
  sbp_msg_callbacks_node_t *sbp_msg_callbacks_head;
} sbp_state_t;
typedef s32 (*sbp_write_fn_t)(u8 *buff, u32 n, void *context);
typedef s32 (*sbp_read_fn_t)(u8 *buff, u32 n, void *context);
void sbp_state_init(sbp_state_t *s);
void sbp_state_set_io_context(sbp_state_t *s, void *context);
s8 sbp_register_callback(sbp_state_t *s, u16 msg_type, sbp_msg_callback_t cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_payload_callback_register(sbp_state_t *s, u16 msg_type, sbp_msg_callback_t cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_callback_register(sbp_state_t *s, sbp_msg_type_t msg_type, sbp_msg_callback cb, void *context, sbp_msg_callbacks_node_t *node);
s8 sbp_remove_callback(sbp_state_t *s, sbp_msg_callbacks_node_t *node);
void sbp_clear_callbacks(sbp_state_t *s);
s8 sbp_process(sbp_state_t *s, s32 (*read)(u8 *buff, u32 n, void *context));
s8 sbp_process_payload(sbp_state_t *s, u16 sender_id, u16 msg_type, u8 msg_len, u8 payload[]);
s8 sbp_send_message(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, sbp_write_fn_t write);
s8 sbp_payload_send(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, sbp_write_fn_t write);
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t msg_type, u16 sender_id, const sbp_msg_t *msg, sbp_write_fn_t write);
s8 sbp_message_process(sbp_state_t *s, u16 sender_id, sbp_msg_type_t msg_type, const sbp_msg_t *msg);

#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_MASK (0x7u)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_SHIFT (0u)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_GET(flags) ((u8)((flags) & 0x7u))
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_INVALID (0)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_VALID (1)

void sbp_msg_log_text_init(sbp_msg_log_t *msg);
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *msg, const char *new_buf, size_t new_buf_len, bool should_trunc, size_t *n_written);
bool sbp_msg_log_text_set(sbp_msg_log_t *msg, const char *new_str, bool should_trunc, size_t *n_written);
#ifdef __cplusplus
}
#endif
#endif
