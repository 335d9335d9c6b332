module aliasgen

go 1.21
