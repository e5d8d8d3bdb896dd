class SHA256:
    name = "sha256"
    digest_size = 32
