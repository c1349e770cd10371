"""Stand-in for the tweetnacl extension package (not installable here): the same functions over PyNaCl's own libsodium."""
