/* closes the section that holds the writable static storage of the implementation */
__attribute__((section("vdstate"), aligned(4096), used)) unsigned char vd_state_tail[4096] = {1};
