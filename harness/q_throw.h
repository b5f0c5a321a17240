// exceptions: the replay build records that the call threw; the verifier follows the throw itself
#ifdef DV_SYMBOLIC
#define Q_TRY
#define Q_CATCH
#define Q_CATCHV(v)
#else
static bool q_thr = false;
extern "C" bool q_thrown() { bool r = q_thr; q_thr = false; return r; }
#define Q_TRY try {
#define Q_CATCH } catch (...) { q_thr = true; }
#define Q_CATCHV(v) } catch (...) { q_thr = true; return v; }
#endif
