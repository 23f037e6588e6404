/* Stand-in for libsbp's framing layer (the submodule is empty here).
 * Wire format and return codes follow the published SBP specification. */
#include <libsbp/sbp.h>
#include <libsbp/edc.h>
#include <string.h>

static u16 crc16_tab[256];
__attribute__((constructor)) static void crc16_init(void) {
  for (unsigned i = 0; i < 256; i++) {
    u16 c = (u16)(i << 8);
    for (int k = 0; k < 8; k++) c = (u16)((c & 0x8000u) ? (u16)(c << 1) ^ 0x1021u : (u16)(c << 1));
    crc16_tab[i] = c;
  }
}
u16 crc16_ccitt(const u8 *buf, u32 len, u16 crc) {
  for (u32 i = 0; i < len; i++) crc = (u16)((crc << 8) ^ crc16_tab[((crc >> 8) ^ buf[i]) & 0xFF]);
  return crc;
}

void sbp_state_init(sbp_state_t *s) {
  memset(s, 0, sizeof(*s));
  s->state = WAITING;
}
void sbp_state_set_io_context(sbp_state_t *s, void *context) { s->io_context = context; }

static s8 reg(sbp_state_t *s, u16 t, void *cb, sbp_cb_type ty, void *ctx, sbp_msg_callbacks_node_t *node) {
  if (cb == NULL || node == NULL) return SBP_NULL_ERROR;
  for (sbp_msg_callbacks_node_t *p = s->sbp_msg_callbacks_head; p; p = p->next)
    if (p == node) return SBP_NULL_ERROR;
  node->msg_type = t;
  node->cb = cb;
  node->cb_type = ty;
  node->context = ctx;
  node->next = NULL;
  sbp_msg_callbacks_node_t **pp = &s->sbp_msg_callbacks_head;
  while (*pp) pp = &(*pp)->next;
  *pp = node;
  return SBP_OK;
}
s8 sbp_register_callback(sbp_state_t *s, u16 t, sbp_msg_callback_t cb, void *ctx, sbp_msg_callbacks_node_t *node) {
  return reg(s, t, (void *)cb, SBP_PAYLOAD_CALLBACK, ctx, node);
}
s8 sbp_payload_callback_register(sbp_state_t *s, u16 t, sbp_msg_callback_t cb, void *ctx, sbp_msg_callbacks_node_t *node) {
  return reg(s, t, (void *)cb, SBP_PAYLOAD_CALLBACK, ctx, node);
}
s8 sbp_callback_register(sbp_state_t *s, sbp_msg_type_t t, sbp_msg_callback cb, void *ctx, sbp_msg_callbacks_node_t *node) {
  return reg(s, (u16)t, (void *)cb, SBP_DECODED_CALLBACK, ctx, node);
}
s8 sbp_remove_callback(sbp_state_t *s, sbp_msg_callbacks_node_t *node) {
  for (sbp_msg_callbacks_node_t **pp = &s->sbp_msg_callbacks_head; *pp; pp = &(*pp)->next)
    if (*pp == node) {
      *pp = node->next;
      return SBP_OK;
    }
  return SBP_NULL_ERROR;
}
void sbp_clear_callbacks(sbp_state_t *s) { s->sbp_msg_callbacks_head = NULL; }

static s8 dispatch(sbp_state_t *s, u16 sender, u16 type, u8 len, u8 *payload, u16 frame_len, u8 *frame) {
  s8 ret = SBP_OK_CALLBACK_UNDEFINED;
  sbp_msg_callbacks_node_t *next;
  for (sbp_msg_callbacks_node_t *n = s->sbp_msg_callbacks_head; n; n = next) {
    next = n->next;
    if (n->msg_type != type && !(n->cb_type == SBP_FRAME_CALLBACK && n->msg_type == 0)) continue;
    switch (n->cb_type) {
      case SBP_PAYLOAD_CALLBACK:
        ((sbp_msg_callback_t)n->cb)(sender, len, payload, n->context);
        ret = SBP_OK_CALLBACK_EXECUTED;
        break;
      case SBP_FRAME_CALLBACK:
        ((sbp_frame_callback_t)n->cb)(sender, type, len, payload, frame_len, frame, n->context);
        ret = SBP_OK_CALLBACK_EXECUTED;
        break;
      case SBP_DECODED_CALLBACK: {
        sbp_msg_t msg;
        memset(&msg, 0, sizeof msg);
        if (sbp_message_decode(payload, len, NULL, (sbp_msg_type_t)type, &msg) != SBP_OK) return SBP_DECODE_ERROR;
        ((sbp_msg_callback)n->cb)(sender, (sbp_msg_type_t)type, &msg, n->context);
        ret = SBP_OK_CALLBACK_EXECUTED;
        break;
      }
    }
  }
  return ret;
}

s8 sbp_process(sbp_state_t *s, s32 (*read)(u8 *buff, u32 n, void *context)) {
  if (read == NULL) return SBP_NULL_ERROR;
  u8 temp;
  s32 rd;
  s8 ret;
  switch (s->state) {
    case WAITING:
      rd = (*read)(&temp, 1, s->io_context);
      if (rd < 0) return SBP_READ_ERROR;
      if (rd == 1 && temp == 0x55) {
        s->frame_buff[0] = temp;
        s->frame_len = 1;
        s->n_read = 0;
        s->state = GET_TYPE;
      }
      break;
    case GET_TYPE:
    case GET_SENDER: {
      u16 base = s->state == GET_TYPE ? 1 : 3;
      rd = (*read)(&s->frame_buff[base + s->n_read], 2u - s->n_read, s->io_context);
      if (rd < 0) return SBP_READ_ERROR;
      s->n_read = (u8)(s->n_read + rd);
      s->frame_len = (u16)(s->frame_len + rd);
      if (s->n_read >= 2) {
        u16 v = (u16)(s->frame_buff[base] | (s->frame_buff[base + 1] << 8));
        if (s->state == GET_TYPE) {
          s->msg_type = v;
          s->state = GET_SENDER;
        } else {
          s->sender_id = v;
          s->state = GET_LEN;
        }
        s->n_read = 0;
      }
      break;
    }
    case GET_LEN:
      rd = (*read)(&s->msg_len, 1, s->io_context);
      if (rd < 0) return SBP_READ_ERROR;
      if (rd == 1) {
        s->frame_buff[5] = s->msg_len;
        s->frame_len = 6;
        s->n_read = 0;
        s->state = s->msg_len ? GET_MSG : GET_CRC;
      }
      break;
    case GET_MSG:
      rd = (*read)(&s->frame_buff[6 + s->n_read], (u32)(s->msg_len - s->n_read), s->io_context);
      if (rd < 0) return SBP_READ_ERROR;
      s->n_read = (u8)(s->n_read + rd);
      s->frame_len = (u16)(s->frame_len + rd);
      if (s->n_read >= s->msg_len) {
        s->n_read = 0;
        s->state = GET_CRC;
      }
      break;
    case GET_CRC: {
      u16 base = (u16)(6 + s->msg_len);
      rd = (*read)(&s->frame_buff[base + s->n_read], 2u - s->n_read, s->io_context);
      if (rd < 0) return SBP_READ_ERROR;
      s->n_read = (u8)(s->n_read + rd);
      s->frame_len = (u16)(s->frame_len + rd);
      if (s->n_read >= 2) {
        s->crc = (u16)(s->frame_buff[base] | (s->frame_buff[base + 1] << 8));
        s->state = WAITING;
        if (crc16_ccitt(&s->frame_buff[1], 5u + s->msg_len, 0) != s->crc) return SBP_CRC_ERROR;
        ret = dispatch(s, s->sender_id, s->msg_type, s->msg_len, &s->frame_buff[6], (u16)(s->msg_len + 8u), s->frame_buff);
        return ret;
      }
      break;
    }
    default:
      s->state = WAITING;
      break;
  }
  return SBP_OK;
}

s8 sbp_process_payload(sbp_state_t *s, u16 sender_id, u16 msg_type, u8 msg_len, u8 payload[]) {
  return dispatch(s, sender_id, msg_type, msg_len, payload, 0, NULL);
}
s8 sbp_message_process(sbp_state_t *s, u16 sender_id, sbp_msg_type_t msg_type, const sbp_msg_t *msg) {
  s8 ret = SBP_OK_CALLBACK_UNDEFINED;
  for (sbp_msg_callbacks_node_t *n = s->sbp_msg_callbacks_head; n; n = n->next)
    if (n->msg_type == (u16)msg_type && n->cb_type == SBP_DECODED_CALLBACK) {
      ((sbp_msg_callback)n->cb)(sender_id, msg_type, msg, n->context);
      ret = SBP_OK_CALLBACK_EXECUTED;
    }
  return ret;
}

s8 sbp_send_message(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, sbp_write_fn_t write) {
  if (len != 0 && payload == NULL) return SBP_NULL_ERROR;
  if (write == NULL) return SBP_NULL_ERROR;
  u8 pre = 0x55;
  u8 t[2] = {(u8)msg_type, (u8)(msg_type >> 8)};
  u8 sd[2] = {(u8)sender_id, (u8)(sender_id >> 8)};
  void *c = s->io_context;
  if ((*write)(&pre, 1, c) != 1) return SBP_SEND_ERROR;
  if ((*write)(t, 2, c) != 2) return SBP_SEND_ERROR;
  if ((*write)(sd, 2, c) != 2) return SBP_SEND_ERROR;
  if ((*write)(&len, 1, c) != 1) return SBP_SEND_ERROR;
  if (len > 0 && (*write)(payload, len, c) != len) return SBP_SEND_ERROR;
  u16 crc = crc16_ccitt(t, 2, 0);
  crc = crc16_ccitt(sd, 2, crc);
  crc = crc16_ccitt(&len, 1, crc);
  crc = crc16_ccitt(payload, len, crc);
  u8 cb[2] = {(u8)crc, (u8)(crc >> 8)};
  if ((*write)(cb, 2, c) != 2) return SBP_SEND_ERROR;
  return SBP_OK;
}
s8 sbp_payload_send(sbp_state_t *s, u16 msg_type, u16 sender_id, u8 len, u8 *payload, sbp_write_fn_t write) {
  return sbp_send_message(s, msg_type, sender_id, len, payload, write);
}
s8 sbp_message_send(sbp_state_t *s, sbp_msg_type_t msg_type, u16 sender_id, const sbp_msg_t *msg, sbp_write_fn_t write) {
  u8 payload[255];
  u8 n = 0;
  if (sbp_message_encode(payload, sizeof payload, &n, msg_type, msg) != SBP_OK) return SBP_ENCODE_ERROR;
  return sbp_send_message(s, (u16)msg_type, sender_id, n, payload, write);
}

void sbp_msg_log_text_init(sbp_msg_log_t *msg) { memset(&msg->text, 0, sizeof msg->text); }
bool sbp_msg_log_text_set_raw(sbp_msg_log_t *msg, const char *b, size_t n, bool trunc, size_t *w) {
  const size_t max = 254; /* 255-byte payload less the level byte */
  if (n > max) {
    if (!trunc) return false;
    n = max;
  }
  memcpy(msg->text.data, b, n);
  msg->text.encoded_len = n;
  if (n < sizeof msg->text.data) msg->text.data[n] = 0;
  if (w) *w = n;
  return true;
}
bool sbp_msg_log_text_set(sbp_msg_log_t *msg, const char *s, bool trunc, size_t *w) {
  return sbp_msg_log_text_set_raw(msg, s, strlen(s), trunc, w);
}
