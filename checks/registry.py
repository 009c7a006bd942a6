import c_buffer, c_async, c_token, c_handler, c_file, c_socks, c_misc, c_launch, c_codes, c_flags, c_ledger
CHECKS = {}
for m in (c_buffer, c_async, c_token, c_handler, c_file, c_socks, c_misc, c_launch, c_codes, c_flags, c_ledger):
    for k in dir(m):
        if len(k) == 3 and k[0].isupper() and k[1:].isdigit():
            CHECKS[k] = getattr(m, k)
