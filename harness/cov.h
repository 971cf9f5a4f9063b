/* every load and store of the instrumented source */
void __sanitizer_cov_load1(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_load2(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_load4(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_load8(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_load16(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_store1(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_store2(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_store4(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_store8(void *p) { (void)p; vh_yield(); }
void __sanitizer_cov_store16(void *p) { (void)p; vh_yield(); }
