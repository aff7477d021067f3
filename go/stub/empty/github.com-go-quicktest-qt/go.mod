module github.com/go-quicktest/qt

go 1.21
