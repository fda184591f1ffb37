from mon.core import main

main()
