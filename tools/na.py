NA_PROPS = []
