#include <dynamic_reconfigure/server.h>
