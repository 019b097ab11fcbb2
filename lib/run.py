import sys

if sys.argv[1:] == ["--setup"]:
    import vh

    vh.boot()
    print("ready")
    sys.exit(0)

import vh

sys.exit(vh.main())
