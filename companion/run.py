from companion.base import main
main()
