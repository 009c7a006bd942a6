#ifndef VERIF_NETNS_HPP
#define VERIF_NETNS_HPP
#if defined(ASIOEXT_USE_BOOST_ASIO)
# include <boost/asio.hpp>
# include <boost/system/system_error.hpp>
namespace net = boost::asio;
typedef boost::system::system_error SysErr;
#else
# include <asio.hpp>
# include <system_error>
namespace net = asio;
typedef std::system_error SysErr;
#endif
#endif
