#include <asio/io_context.hpp>
