# properties without a check, with the reason
NA = {}
