// Stand-in for IBM zDNN's public header (not available here): the types and
// functions that src/Accelerators/NNPA uses, with zDNN's documented meaning.
#ifndef ZDNN_H_STANDIN
#define ZDNN_H_STANDIN
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef enum zdnn_status {
  ZDNN_OK = 0,
  ZDNN_ELEMENT_RANGE_VIOLATION = 0x00020001,
  ZDNN_INVALID_SHAPE = 0x00040001,
  ZDNN_INVALID_LAYOUT,
  ZDNN_INVALID_TYPE,
  ZDNN_INVALID_FORMAT,
  ZDNN_INVALID_DIRECTION,
  ZDNN_INVALID_CONCAT_INFO,
  ZDNN_INVALID_STRIDE_PADDING,
  ZDNN_INVALID_STRIDES,
  ZDNN_MISALIGNED_PARMBLOCK,
  ZDNN_INVALID_CLIPPING_VALUE,
  ZDNN_INVALID_ADJUSTMENT_FACTOR,
  ZDNN_INVALID_EPSILON,
  ZDNN_INVALID_TRANSFORM_TYPE,
  ZDNN_INVALID_BETA,
  ZDNN_INVALID_GAMMA,
  ZDNN_INVALID_BESSEL_CORRECTION,
  ZDNN_INVALID_SCALE,
  ZDNN_INVALID_OFFSET,
  ZDNN_ALLOCATION_FAILURE = 0x00100001,
  ZDNN_INVALID_BUFFER,
  ZDNN_CONVERT_FAILURE,
  ZDNN_INVALID_STATE,
  ZDNN_UNSUPPORTED_AIU_EXCEPTION,
  ZDNN_UNSUPPORTED_PARMBLOCK = 0x00080001,
  ZDNN_UNAVAILABLE_FUNCTION,
  ZDNN_UNSUPPORTED_FORMAT = 0x00080010,
  ZDNN_UNSUPPORTED_TYPE,
  ZDNN_EXCEEDS_MDIS,
  ZDNN_EXCEEDS_MTS,
  ZDNN_MISALIGNED_TENSOR,
  ZDNN_MISALIGNED_SAVEAREA,
} zdnn_status;

typedef enum zdnn_data_types {
  ZDNN_DLFLOAT16 = 0,
  ZDNN_BINARY_FP32 = 6,
  ZDNN_BINARY_INT8 = 8,
  ZDNN_BINARY_INT32 = 10,
  INT8 = 251,
  INT32 = 252,
  BFLOAT = 253,
  FP16 = 254,
  FP32 = 255,
} zdnn_data_types;

typedef enum zdnn_data_layouts {
  ZDNN_1D = 0,
  ZDNN_2D,
  ZDNN_2DS,
  ZDNN_3D,
  ZDNN_3DS,
  ZDNN_ZRH,
  ZDNN_4D,
  ZDNN_4DS,
  ZDNN_NHWC,
  ZDNN_NCHW,
  ZDNN_FICO,
  ZDNN_HWCK,
  ZDNN_BIDIR_ZRH,
  ZDNN_BIDIR_FICO,
} zdnn_data_layouts;

typedef enum zdnn_data_formats {
  ZDNN_FORMAT_4DFEATURE = 0,
  ZDNN_FORMAT_4DKERNEL = 1,
  ZDNN_FORMAT_4DWEIGHTS = 2,
  ZDNN_FORMAT_4DGENERIC = 31,
} zdnn_data_formats;

typedef enum zdnn_quantized_transform_types {
  QUANTIZED_DLFLOAT16 = 0,
  QUANTIZED_INT8 = 1,
  QUANTIZED_WEIGHTS_INT8 = 2,
} zdnn_quantized_transform_types;

typedef uint32_t zdnn_concat_info;
#define RNN_TYPE_LSTM (0 << 24)
#define RNN_TYPE_GRU (1 << 24)
#define PREV_LAYER_UNI (0 << 16)
#define PREV_LAYER_NONE PREV_LAYER_UNI
#define PREV_LAYER_BIDIR (1 << 16)
#define USAGE_WEIGHTS (0 << 8)
#define USAGE_BIASES (1 << 8)
#define USAGE_HIDDEN_WEIGHTS (2 << 8)
#define USAGE_HIDDEN_BIASES (3 << 8)
#define CONCAT_RNN_TYPE(info) ((info) & (0xFFu << 24))
#define CONCAT_PREV_LAYER(info) ((info) & (0xFFu << 16))
#define CONCAT_USAGE(info) ((info) & (0xFFu << 8))

typedef enum nnpa_function_code {
  NNPA_LSTMACT = 80,
  NNPA_GRUACT = 81,
} nnpa_function_code;
typedef enum nnpa_parmblk_format {
  NNPA_PARMBLKFORMAT_0 = 0,
  NNPA_PARMBLKFORMAT_1 = 1
} nnpa_parmblk_format;
#define NO_ARG ""

typedef struct zdnn_tensor_desc {
  zdnn_data_layouts layout;
  zdnn_data_formats format;
  zdnn_data_types type;
  uint32_t dim4;
  uint32_t dim3;
  uint32_t dim2;
  uint32_t dim1;
} zdnn_tensor_desc;

typedef struct zdnn_ztensor {
  zdnn_tensor_desc *pre_transformed_desc;
  zdnn_tensor_desc *transformed_desc;
  uint64_t buffer_size;
  void *buffer;
  bool is_transformed;
  char reserved[3];
  float rec_scale;
  float offset;
  char reserved2[20];
} zdnn_ztensor;

typedef enum zdnn_softmax_act {
  SOFTMAX_ACT_NONE = 0,
  SOFTMAX_ACT_LOG = 1
} zdnn_softmax_act;
typedef enum zdnn_matmul_ops {
  MATMUL_OP_ADDITION = 0,
  MATMUL_OP_GREATER,
  MATMUL_OP_GREATER_EQUAL,
  MATMUL_OP_EQUAL,
  MATMUL_OP_NOT_EQUAL,
  MATMUL_OP_LESSER_EQUAL,
  MATMUL_OP_LESSER
} zdnn_matmul_ops;
typedef enum zdnn_matmul_bcast_ops {
  MATMUL_BCAST_OP_ADDITION = 0,
  MATMUL_BCAST_OP_GREATER,
} zdnn_matmul_bcast_ops;

void zdnn_init();
bool zdnn_is_nnpa_installed();
bool zdnn_is_nnpa_parmblk_fmt_installed(int count, ...);
uint32_t zdnn_get_nnpa_max_dim_idx_size();
uint64_t zdnn_get_nnpa_max_tensor_size();
uint32_t zdnn_get_max_for_dim(uint8_t dim);
const char *zdnn_get_status_message(zdnn_status status);
uint64_t zdnn_getsize_ztensor(const zdnn_tensor_desc *tfrmd_desc);
zdnn_status zdnn_generate_transformed_desc(
    const zdnn_tensor_desc *pre, zdnn_tensor_desc *tfrmd);
zdnn_status zdnn_generate_quantized_transformed_desc(
    const zdnn_tensor_desc *pre, zdnn_quantized_transform_types t,
    zdnn_tensor_desc *tfrmd);
zdnn_status zdnn_free_ztensor_buffer(const zdnn_ztensor *t);

#define ZT const zdnn_ztensor *
zdnn_status zdnn_add(ZT a, ZT b, zdnn_ztensor *o);
zdnn_status zdnn_sub(ZT a, ZT b, zdnn_ztensor *o);
zdnn_status zdnn_mul(ZT a, ZT b, zdnn_ztensor *o);
zdnn_status zdnn_div(ZT a, ZT b, zdnn_ztensor *o);
zdnn_status zdnn_min(ZT a, ZT b, zdnn_ztensor *o);
zdnn_status zdnn_max(ZT a, ZT b, zdnn_ztensor *o);
zdnn_status zdnn_log(ZT a, zdnn_ztensor *o);
zdnn_status zdnn_exp(ZT a, zdnn_ztensor *o);
zdnn_status zdnn_sqrt(ZT a, zdnn_ztensor *o);
zdnn_status zdnn_invsqrt(ZT a, float epsilon, zdnn_ztensor *o);
zdnn_status zdnn_relu(ZT a, const void *clip, zdnn_ztensor *o);
zdnn_status zdnn_leaky_relu(
    ZT a, const void *clip, float adjustment_factor, zdnn_ztensor *o);
zdnn_status zdnn_tanh(ZT a, zdnn_ztensor *o);
zdnn_status zdnn_sigmoid(ZT a, zdnn_ztensor *o);
zdnn_status zdnn_gelu(ZT a, zdnn_ztensor *o);
zdnn_status zdnn_softmax(
    ZT a, void *save_area, zdnn_softmax_act act, zdnn_ztensor *o);
zdnn_status zdnn_reduce(ZT a, void *save_area, int op, zdnn_ztensor *o);
zdnn_status zdnn_matmul_op(
    ZT a, ZT b, ZT c, zdnn_matmul_ops op, zdnn_ztensor *o);
zdnn_status zdnn_matmul_bcast_op(
    ZT a, ZT b, ZT c, zdnn_matmul_bcast_ops op, zdnn_ztensor *o);
zdnn_status zdnn_matmul_transpose_op(
    ZT a, ZT b, ZT c, bool ta, bool tb, int op, zdnn_ztensor *o);
zdnn_status zdnn_quantized_matmul_op(ZT a, ZT b, ZT c, zdnn_matmul_ops op,
    int8_t clip_min, int8_t clip_max, bool disable_clipping, bool dequantize,
    bool pre_computed, void *work_area, zdnn_ztensor *o);
#undef ZT
#ifdef __cplusplus
}
#endif
#endif
