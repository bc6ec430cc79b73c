// file checksums are not staged
