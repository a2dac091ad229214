module prep

go 1.21
