target_link_libraries(pbt-C30 PRIVATE sim-client ngtcp2 ssl)
foreach(CALL getaddrinfo freeaddrinfo ioctl read recv recvfrom recvmsg send sendto sendmsg write)
  target_link_options(pbt-C30 PRIVATE -Wl,--wrap=${CALL})
endforeach()
