/* empty: the C library is not linked, only its headers are read */
