target_link_libraries(pbt-C31 PRIVATE sim-client ngtcp2 ssl)
foreach(CALL ioctl read recv recvfrom recvmsg send sendto sendmsg write)
  target_link_options(pbt-C31 PRIVATE -Wl,--wrap=${CALL})
endforeach()
