#pragma once
#ifndef ABSL_GUARDED_BY
#define ABSL_GUARDED_BY(x)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_LOCKS_EXCLUDED(...)
#endif
