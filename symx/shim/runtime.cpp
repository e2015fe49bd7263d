SymCallbacks g_cb;
int g_num_threads = 1;
int g_oob = 0;
std::vector<SymArg> g_args;
std::vector<at::Tensor> g_res;
size_t g_pos = 0;
std::string g_err;
extern "C" {
void sym_init(SymCallbacks* c) { g_cb = *c; }
void sym_threads(int n) { g_num_threads = n; }
int sym_oob() { int r = g_oob; g_oob = 0; return r; }
const char* sym_error() { return g_err.c_str(); }
void sym_args_clear() { g_args.clear(); }
void sym_arg_int(int64_t v) { g_args.push_back({0, v, at::Tensor()}); }
void sym_arg_real(int64_t v) { g_args.push_back({1, v, at::Tensor()}); }
void* sym_arg_tensor(int dt, int nd, const int64_t* sizes, int contig, const int64_t* strides, int64_t span) {
  at::Tensor t(std::vector<int64_t>(sizes, sizes + nd), (SymType)dt);
  if (!contig) { t.s->b.assign(span * at::sym_size(t.t), 0); t.st.assign(strides, strides + nd); }
  g_args.push_back({2, 0, t});
  return t.s->b.data();
}
void* sym_arg_data(int i) { return g_args[i].t.s->b.data(); }
int sym_nres() { return g_res.size(); }
int sym_res_dtype(int i) { return (int)g_res[i].t; }
int sym_res_dim(int i) { return g_res[i].dim(); }
int64_t sym_res_size(int i, int d) { return g_res[i].sz[d]; }
void* sym_res_data(int i) { return g_res[i].s->b.data(); }
}
