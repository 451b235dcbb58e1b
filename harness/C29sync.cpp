// The grid-wide barrier for harnesses that run one thread at a time.
extern "C" void vp_grid_sync() {}
