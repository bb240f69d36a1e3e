target_link_libraries(pbt-C32 PRIVATE bnl-quic ngtcp2 ssl)
