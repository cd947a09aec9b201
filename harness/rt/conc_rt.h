#pragma once
extern "C" {
// which of the pointers seen under this key p is: 0 for the first
int vf_rt_id(const char* key, void* p);
void vf_rt_log(char kind, int t, int i, const char* text);
}
