// Random draws without state: every sample is the mean.
namespace lmb { inline double urand() { return 0.5; } inline double nrand() { return 0.0; } }
